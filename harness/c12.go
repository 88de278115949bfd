package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"go/format"
	"go/scanner"
	"go/token"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"text/template"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C12"] = &CheckDef{
		Boost: 15,
		Deep:  10,
		Run:   runC12,
		Rule:  "a case is a list of files with a failure (or none) placed at each, written with WriteGoFiles; it is distinct by the files' contents and faults",
		Needs: map[string]int64{"calls": 500, "files_delivered_whole": 500, "fault_open": 100, "fault_format": 100, "fault_write": 100, "fault_close": 100,
			"fault_write_and_close": 50, "fault_template_panic": 50, "fault_writer_panic": 50, "fault_write_once": 50, "fault_open_with_writer": 50, "large_files": 50, "calls_without_failure": 50, "files_not_started_after_failure": 100},
		Assumptions: []string{"the writer follows the io.Writer contract (a short write comes with an error)"},
	}
}

// dEvent is one call seen by the recording writer factory.
type dEvent struct {
	kind string // open, write, close
	file int    // which open call the writer came from
	path string
	n    int
}

type dFault int

const (
	fNone dFault = iota
	fOpen
	fFormat
	fWriteNone
	fWritePart
	fClose
	fWriteClose
	fTmplPanic
	fWritePanic
	fOpenPanic
	fTmplClose // template panic, and close fails too
	fFormatClose
	fWriteOnce   // only the first write fails
	fWriteSecond // the second write fails, if there is one
	fOpenBoth    // opening fails but returns a writer too
	numFaults
)

var faultNames = map[dFault]string{fNone: "none", fOpen: "open", fFormat: "format", fWriteNone: "write", fWritePart: "write", fClose: "close",
	fWriteClose: "write_and_close", fTmplPanic: "template_panic", fWritePanic: "writer_panic", fOpenPanic: "open_panic", fTmplClose: "template_panic_and_close", fFormatClose: "format_and_close",
	fWriteOnce: "write_once", fWriteSecond: "write_second", fOpenBoth: "open_with_writer"}

// recorder is a writer factory that records every call and injects failures.
type recorder struct {
	log    []dEvent
	opened int
	faults []dFault
	data   []*bytes.Buffer
	closed []int
	writes []int
	errs   [][2]error // of the failing step and of close, per file
	after  []string   // protocol violations seen by writers
	style  int
}

type dWriter struct {
	r *recorder
	i int
}

// wellKnownErrors are errors that mean something special in other places.
var wellKnownErrors = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, os.ErrExist, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, os.ErrDeadlineExceeded,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, syscall.EBADF, syscall.EINVAL, syscall.ENOSYS, syscall.EEXIST, syscall.ENOTSUP, syscall.Errno(0), context.Canceled, context.DeadlineExceeded, errors.ErrUnsupported, http.ErrHandlerTimeout, bufio.ErrBufferFull,
	bytes.ErrTooLarge, &timeoutError{}, (*dError)(nil), &gopoet.FormatError{Unformatted: []byte("x"), Err: errors.New("not of this file")}, scanner.ErrorList{}.Err()}

type timeoutError struct{}

func (*timeoutError) Error() string   { return "" }
func (*timeoutError) Timeout() bool   { return true }
func (*timeoutError) Temporary() bool { return true }

// pickError is one of those, or an error that wraps one.
func pickError(r *Rng) error {
	e := Pick(r, wellKnownErrors)
	for e == nil {
		e = Pick(r, wellKnownErrors)
	}
	switch r.IntN(5) {
	case 0:
		return &os.PathError{Op: OneOf(r, "close", "write", "open", "sync"), Path: "x.go", Err: e}
	case 1:
		return fmt.Errorf("%s: %w", r.Str(), e)
	case 2:
		return errors.Join(errors.New("first"), e)
	}
	return e
}

type dError struct{ s string }

func (e *dError) Error() string {
	if e == nil {
		return "nil error of some type"
	}
	return e.s
}

func newRecorder(faults []dFault, style int) *recorder {
	r := &recorder{faults: faults, style: style}
	for i := range faults {
		r.data = append(r.data, &bytes.Buffer{})
		r.closed = append(r.closed, 0)
		r.writes = append(r.writes, 0)
		var e [2]error
		for j, what := range []string{"step", "close"} {
			s := fmt.Sprintf("injected failure of %s of file %d", what, i)
			switch {
			case style >= 12:
				// errors that mean something in other places
				e[j] = pickError(newRng(uint64(style), s, "", 0))
				continue
			}
			switch style % 3 {
			case 0:
				e[j] = &dError{s}
			case 1:
				e[j] = errors.New(s)
			case 2:
				e[j] = fmt.Errorf("%s: %w", s, io.ErrShortWrite)
			}
		}
		r.errs = append(r.errs, e)
	}
	return r
}

func (r *recorder) open(path string) (io.WriteCloser, error) {
	i := r.opened
	r.opened++
	r.log = append(r.log, dEvent{kind: "open", file: i, path: path})
	if i >= len(r.faults) {
		r.after = append(r.after, "more files opened than given")
		return nil, errors.New("too many files")
	}
	switch r.faults[i] {
	case fOpen:
		return nil, r.errs[i][0]
	case fOpenBoth:
		e := r.errs[i][0]
		if r.style%2 == 1 && r.style < 12 {
			e = OneOf(newRng(uint64(r.style), "", "", i), os.ErrExist, os.ErrPermission, io.EOF, io.ErrUnexpectedEOF)
			r.errs[i][0] = e
		}
		return &strayWriter{r}, e
	case fOpenPanic:
		panic(r.errs[i][0])
	}
	if r.style%12 >= 6 {
		return &richWriter{&dWriter{r, i}}, nil
	}
	return &dWriter{r, i}, nil
}

// richWriter has more methods, like files and buffers have. All of them write
// and fail in the same way.
type richWriter struct{ *dWriter }

func (w *richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

func (w *richWriter) WriteAt(p []byte, off int64) (int, error) { return w.Write(p) }

// strayWriter comes with an error, so it may not be written to.
type strayWriter struct{ r *recorder }

func (w *strayWriter) Write(p []byte) (int, error) {
	w.r.after = append(w.r.after, "write to a writer that came with an error")
	return len(p), nil
}

func (w *strayWriter) Close() error { return nil }

func (w *dWriter) Write(p []byte) (int, error) {
	r := w.r
	r.log = append(r.log, dEvent{kind: "write", file: w.i, n: len(p)})
	if r.closed[w.i] > 0 {
		r.after = append(r.after, "write after close")
	}
	if w.i != r.opened-1 {
		r.after = append(r.after, "write to another file than the one opened last")
	}
	r.writes[w.i]++
	f := r.faults[w.i]
	if f == fWriteOnce && r.writes[w.i] == 1 || f == fWriteSecond && r.writes[w.i] == 2 {
		f = fWriteNone
		if r.style%2 == 1 {
			f = fWritePart
		}
	}
	switch f {
	case fWriteNone:
		return 0, r.errs[w.i][0]
	case fWritePart, fWriteClose:
		n := len(p) / 2
		if r.style%2 == 1 {
			// even a complete write can come with an error
			n = len(p)
		}
		r.data[w.i].Write(p[:n])
		return n, r.errs[w.i][0]
	case fWritePanic:
		panic(r.errs[w.i][0])
	}
	r.data[w.i].Write(p)
	// a writer may not keep p, but a caller may not rely on what is in there
	// only the first bytes are scribbled over by contract-abiding writers: none
	return len(p), nil
}

func (w *dWriter) Close() error {
	r := w.r
	r.log = append(r.log, dEvent{kind: "close", file: w.i})
	r.closed[w.i]++
	switch r.faults[w.i] {
	case fClose, fWriteClose, fTmplClose, fFormatClose:
		return r.errs[w.i][1]
	}
	return nil
}

// dFile is a file to deliver, with an independent equal file that gives the
// bytes expected of it.
type dFile struct {
	gf   *gopoet.GoFile
	path string
	want []byte
}

var errTmpl = errors.New("template function fails")

// badTmpls fail, each with another error; errTmpl is always among those that are
// wrapped.
var badTmpls = func() []*template.Template {
	var ret []*template.Template
	errs := append([]error{errTmpl, errTmpl, errTmpl}, wellKnownErrors...)
	for _, e := range errs {
		switch {
		case e == nil:
			continue
		case e != errTmpl:
			e = &bothErrors{e}
		}
		ret = append(ret, template.Must(template.New("bad").Funcs(template.FuncMap{"fail": func() (string, error) { return "", e }}).Parse("x {{fail}} y")))
	}
	return ret
}()

// bothErrors is errTmpl and another error.
type bothErrors struct{ error }

func (b *bothErrors) Is(e error) bool { return e == errTmpl || errors.Is(b.error, e) }

// breakFile makes a file fail in the given way.
func breakFile(r *Rng, gf *gopoet.GoFile, f dFault) {
	switch f {
	case fFormat, fFormatClose:
		switch r.IntN(4) {
		case 0:
			gf.AddElement(gopoet.NewFunc("broken").Println("}{"))
		case 1:
			gf.AddConst(gopoet.NewConst("broken").Initialize("( 1"))
		case 2:
			gf.AddElement(gopoet.NewFunc("broken").Println("x := `"))
		case 3:
			gf.AddType(gopoet.NewTypeSpec("func", gopoet.IntType))
		}
	case fTmplPanic, fTmplClose:
		gf.AddElement(gopoet.NewFunc("broken").RenderCode(Pick(r, badTmpls), nil))
	}
}

func runC12(c *Ctx) {
	// every placement of faults over up to three small files
	n := int(numFaults)
	total := 1 + n + n*n + n*n*n
	c.Run("every placement of faults", total, func(k *Case) {
		i := k.Idx
		var faults []dFault
		switch {
		case i == 0:
		case i < 1+n:
			faults = []dFault{dFault(i - 1)}
		case i < 1+n+n*n:
			i -= 1 + n
			faults = []dFault{dFault(i / n), dFault(i % n)}
		default:
			i -= 1 + n + n*n
			faults = []dFault{dFault(i / n / n), dFault(i / n % n), dFault(i % n)}
		}
		k.deliver(faults, func(j int) (*gopoet.GoFile, *gopoet.GoFile) { return k.smallFile(j), k.smallFile(j) })
	})
	c.Run("worlds", c.N(1200, 30000), func(k *Case) {
		opt := WOpt{Pkgs: k.R.Between(1, 3), FilesPerPkg: k.R.Between(1, 3), Elems: k.R.Between(1, 8), Bodies: k.R.Chance(60), MaxPieces: 4, Share: k.R.Chance(30), TypeBudget: 6, Comments: k.R.IntN(2), Canonical: true, NoExplicit: false, Reuse: k.R.Chance(30)}
		seed := k.R.Uint64()
		a, b := buildWorld(newRng(seed, "C12", "w", 0), opt), buildWorld(newRng(seed, "C12", "w", 0), opt)
		perm := k.R.Perm(len(a.Files))
		faults := make([]dFault, len(perm))
		if k.R.Chance(75) {
			for n := k.R.Between(1, 2); n > 0; n-- {
				faults[k.R.IntN(len(faults))] = dFault(k.R.IntN(int(numFaults)))
			}
		}
		k.deliver(faults, func(j int) (*gopoet.GoFile, *gopoet.GoFile) { return a.Files[perm[j]].GF, b.Files[perm[j]].GF })
	})
	c.Run("many files", c.N(150, 3000), func(k *Case) {
		r := k.R
		faults := make([]dFault, r.Size(r.Between(4, 30), 150))
		if r.Chance(60) && len(faults) > 0 {
			faults[r.IntN(len(faults))] = dFault(r.IntN(int(numFaults)))
		}
		first := r.IntN(3)
		var again *gopoet.GoFile
		which := 0
		k.deliver(faults, func(j int) (*gopoet.GoFile, *gopoet.GoFile) {
			gf := k.smallFile(j % 10)
			if faults[j] == fNone {
				// some files are given more than once
				if again != nil && r.Chance(30) {
					return again, k.smallFile(which)
				}
				if j >= first {
					again, which = gf, j%10
				}
			}
			return gf, k.smallFile(j % 10)
		})
	})
	c.Run("one file", c.N(400, 8000), func(k *Case) { k.oneFile() })
}

var pathChoices = []string{"a", "a/b", "example.com/x/y.z", "", "世界/ü", "a//b", "a/../b", "./c", "d/", "example.com/with space", "/abs", "a/./b", "C:/x", "..", "%s/%d"}
var fileNames = []string{"x.go", "doc.go", "x_linux.go", "x_linux_arm64.go", "main.go", "_x.go", "x.pb.go", "x.gen.go", "generated.go", "y_test.go", "世界.go", ".go", "a b.go", "%d.go", "zz_generated.go"}

// smallFile makes the j-th file of the case; calling it again gives an equal
// one.
func (k *Case) smallFile(j int) *gopoet.GoFile {
	r := newRng(k.Seed, "C12", "small", k.Idx*10+j)
	gf := gopoet.NewGoFile(Pick(r, fileNames), Pick(r, pathChoices), OneOf(r, "a", "b", "main"))
	gf.FileComment = OneOf(r, "", "file comment")
	if r.Chance(3) {
		// larger than any buffer
		gf.AddElement(gopoet.NewFunc("large").Println(strings.Repeat("\tprintln(\"0123456789012345678901234567890123456789\")\n", r.Between(500, 6000))))
		k.Count("large_files", 1)
	}
	if n := r.HugeText(); n > 0 {
		gf.AddElement(gopoet.NewFunc("huge").Print(strings.Repeat("\tx = 12\n", n/8)))
	}
	for i := r.IntN(4); i > 0; i-- {
		name := fmt.Sprintf("N%d", i)
		switch r.IntN(4) {
		case 0:
			gf.AddConst(gopoet.NewConst(name).Initialize("%d", r.IntN(1000)))
		case 1:
			gf.AddVar(gopoet.NewVar(name).SetType(gopoet.NamedType(gopoet.NewSymbol(Pick(r, importPaths)+"/q", "T"))))
		case 2:
			gf.AddElement(gopoet.NewFunc(name).Println(strings.Repeat("  x = 1\n", r.IntN(30))))
		case 3:
			gf.AddType(gopoet.NewTypeSpec(name, gopoet.StructType(gopoet.FieldType{Name: "a", Type: gopoet.IntType})))
		}
	}
	return gf
}

// deliver writes files with faults and checks what the recorder saw.
func (k *Case) deliver(faults []dFault, mk func(j int) (gf, twin *gopoet.GoFile)) {
	var files []dFile
	var gfs []*gopoet.GoFile
	desc := ""
	for j, f := range faults {
		gf, twin := mk(j)
		bk := k.R.Uint64()
		breakFile(newRng(bk, "", "", 0), gf, f)
		d := dFile{gf: gf, path: filepath.Join(gf.Package().ImportPath, gf.Name)}
		switch f {
		case fTmplPanic, fTmplClose:
		default:
			// for source that cannot be formatted, without what breaks it
			var b bytes.Buffer
			if err := gopoet.WriteGoFile(&b, twin); err != nil {
				k.Failf("WriteGoFile of a well-formed file: %v\n%s", err, unformatted(err))
			}
			d.want = b.Bytes()
			if again, err := format.Source(d.want); err != nil || !bytes.Equal(again, d.want) {
				k.Failf("WriteGoFile wrote source that is not formatted (%v):\n%s", err, numbered(d.want))
			}
		}
		files = append(files, d)
		gfs = append(gfs, gf)
		desc += fmt.Sprintf("%s=%s ", d.path, faultNames[f])
	}
	rec := newRecorder(faults, k.R.IntN(24))
	var err error
	panicked, val := panics(func() { err = gopoet.WriteGoFiles(rec.open, gfs...) })
	k.checkDelivery(rec, files, faults, err, panicked, val, desc)
	content := desc
	for _, f := range files {
		content += string(f.want)
	}
	k.Nontrivial(content)
	k.Sample("%s -> err=%v panic=%v; calls: %s", desc, err, val, rec.trace())
}

func (r *recorder) trace() string {
	var b strings.Builder
	for _, e := range r.log {
		fmt.Fprintf(&b, "%s#%d", e.kind, e.file)
		if e.path != "" {
			fmt.Fprintf(&b, "(%s)", e.path)
		}
		if e.kind == "write" {
			fmt.Fprintf(&b, "[%d]", e.n)
		}
		b.WriteString(" ")
	}
	return b.String()
}

// checkDelivery is the oracle over the recorded log.
func (k *Case) checkDelivery(rec *recorder, files []dFile, faults []dFault, err error, panicked bool, val any, desc string) {
	fail := func(format string, args ...any) {
		k.Failf("%s\nfiles and faults: %s\ncalls: %s\nreturned: %v panic: %v", fmt.Sprintf(format, args...), desc, rec.trace(), err, val)
	}
	if len(rec.after) > 0 {
		fail("%s", rec.after[0])
	}
	k.Count("calls", 1)
	faults = append([]dFault(nil), faults...)
	for j, f := range faults {
		if f == fWriteSecond && rec.writes[j] < 2 {
			// no second write to fail
			faults[j] = fNone
		}
	}
	// which file ends it
	last := len(faults)
	for j, f := range faults {
		if f != fNone {
			last = j
			break
		}
	}
	// the calls for each file, in order
	pos := 0
	next := func() dEvent {
		if pos < len(rec.log) {
			pos++
			return rec.log[pos-1]
		}
		return dEvent{kind: "nothing", file: -1}
	}
	for j := range files {
		if j > last {
			break
		}
		f := faults[j]
		e := next()
		if e.kind != "open" || e.file != j {
			fail("file %d (%s) is not opened next, but there is %s#%d", j, files[j].path, e.kind, e.file)
		}
		if e.path != files[j].path {
			fail("file %d is opened as %q, want %q", j, e.path, files[j].path)
		}
		if f == fOpen || f == fOpenPanic || f == fOpenBoth {
			break
		}
		writes := 0
		for pos < len(rec.log) && rec.log[pos].kind == "write" && rec.log[pos].file == j {
			pos++
			writes++
		}
		e = next()
		if e.kind != "close" || e.file != j {
			fail("the writer of file %d is not closed after writing, but there is %s#%d", j, e.kind, e.file)
		}
		got := rec.data[j].Bytes()
		switch f {
		case fNone, fClose:
			if !bytes.Equal(got, files[j].want) {
				fail("file %d was handed other bytes than the complete source: %s", j, firstDiff(string(files[j].want), string(got)))
			}
			if writes == 0 {
				fail("nothing was written to file %d", j)
			}
		case fFormat, fFormatClose, fTmplPanic, fTmplClose:
			if writes > 0 {
				fail("file %d cannot be rendered or formatted but something is written to it", j)
			}
		case fWriteNone, fWritePart, fWriteClose, fWritePanic, fWriteOnce, fWriteSecond:
			if writes == 0 {
				fail("nothing was written to file %d", j)
			}
			if !bytes.HasPrefix(files[j].want, got) {
				fail("file %d was handed bytes that do not start the complete source: %s", j, firstDiff(string(files[j].want), string(got)))
			}
		}
		if f == fNone {
			k.Count("files_delivered_whole", 1)
		}
	}
	if pos != len(rec.log) {
		fail("unexpected further call %s#%d", rec.log[pos].kind, rec.log[pos].file)
	}
	if last == len(faults) {
		if panicked || err != nil {
			fail("nothing failed, but the call does")
		}
		k.Count("calls_without_failure", 1)
		return
	}
	k.Count("files_not_started_after_failure", len(faults)-last-1)
	k.Count("fault_"+faultNames[faults[last]], 1)
	if !panicked && err == nil {
		fail("file %d failed but the call reports success", last)
	}
	step, cl := rec.errs[last][0], rec.errs[last][1]
	switch faults[last] {
	case fOpen, fOpenBoth, fWriteNone, fWritePart, fWriteClose, fWriteOnce, fWriteSecond:
		if panicked || !errors.Is(err, step) {
			fail("the failure of file %d is not reported", last)
		}
	case fClose:
		if panicked || !errors.Is(err, cl) {
			fail("the failure to close file %d is not reported", last)
		}
	case fFormat, fFormatClose:
		var fe *gopoet.FormatError
		if panicked || !errors.As(err, &fe) {
			fail("source that cannot be formatted is not reported as format error but as %T", err)
		}
		k.checkFormatError(fe, files[last].gf, files[last].want)
	case fTmplPanic, fTmplClose:
		if !panicked && !errors.Is(err, errTmpl) {
			fail("the failing template in file %d is not reported", last)
		}
	case fWritePanic, fOpenPanic:
		if panicked && val != any(step) {
			fail("another panic than that of the writer")
		}
		if !panicked && err == nil {
			fail("the panic got lost")
		}
	}
}

// tokens gives the tokens of source text, without line structure and comments.
func tokens(src []byte) []string {
	var ret []string
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", -1, len(src)), src, func(token.Position, string) {}, 0)
	for {
		_, tok, lit := s.Scan()
		switch tok {
		case token.EOF:
			return ret
		case token.SEMICOLON, token.COMMA:
			// may come and go with lines
		case token.IDENT:
			ret = append(ret, lit)
		default:
			ret = append(ret, tok.String())
		}
	}
}

// checkFormatError checks the error for a file, given the source of that file
// without the last element, which is the broken one.
func (k *Case) checkFormatError(fe *gopoet.FormatError, gf *gopoet.GoFile, healthy []byte) {
	if fe.Err == nil || fe.Error() == "" {
		k.Failf("format error without error: %#v", fe)
	}
	_, err := format.Source(fe.Unformatted)
	if err == nil {
		k.Failf("format error carries source that can be formatted:\n%s", fe.Unformatted)
	}
	if err.Error() != fe.Err.Error() {
		k.Failf("format error is %q, but formatting its source gives %q", fe.Err, err)
	}
	s := string(fe.Unformatted)
	if !strings.Contains(s, "package "+gf.PackageName) || !strings.Contains(s, "broken") && !strings.Contains(s, "type func") {
		k.Failf("format error does not carry the unformatted source but\n%s", s)
	}
	want, got := tokens(healthy), tokens(fe.Unformatted)
	for i, t := range want {
		if i >= len(got) || got[i] != t {
			k.Failf("the source in the format error is not that of the file: token %d is not %q\n%s\nthe file without what is broken:\n%s", i, t, s, healthy)
		}
	}
	// it stays, whatever else is rendered
	text := fe.Err.Error()
	for i := k.R.IntN(4); i >= 0; i-- {
		gf := k.smallFile(100 + i)
		if k.R.Chance(30) {
			breakFile(k.R, gf, fFormat)
		}
		gopoet.WriteGoFile(io.Discard, gf)
	}
	if string(fe.Unformatted) != s || fe.Err.Error() != text {
		k.Failf("the format error changed while other files were rendered: %s", firstDiff(s, string(fe.Unformatted)))
	}
	k.Count("format_errors", 1)
}

// oneFile checks WriteGoFile itself, with all kinds of writers.
func (k *Case) oneFile() {
	want, twin := k.smallFile(0), k.smallFile(0)
	var b bytes.Buffer
	if err := gopoet.WriteGoFile(&b, want); err != nil {
		k.Failf("WriteGoFile: %v %s", err, unformatted(err))
	}
	f := OneOf(k.R, fNone, fFormat, fWriteNone, fWritePart, fWritePanic, fTmplPanic, fWriteOnce, fWriteSecond)
	breakFile(k.R, twin, f)
	rec := newRecorder([]dFault{f}, k.R.IntN(24))
	w, _ := rec.open("")
	var err error
	panicked, val := panics(func() { err = gopoet.WriteGoFile(w, twin) })
	got := rec.data[0].Bytes()
	wrote := len(rec.log) > 1
	for _, e := range rec.log {
		if e.kind == "close" {
			k.Failf("WriteGoFile closes the writer it was given")
		}
	}
	if f == fWriteSecond && rec.writes[0] < 2 {
		f = fNone
	}
	switch f {
	case fNone:
		if panicked || err != nil || !bytes.Equal(got, b.Bytes()) {
			k.Failf("WriteGoFile does not hand over the complete source: err=%v panic=%v\n%s", err, val, firstDiff(b.String(), string(got)))
		}
	case fFormat:
		var fe *gopoet.FormatError
		if panicked || !errors.As(err, &fe) || wrote {
			k.Failf("source that cannot be formatted: err=%T %v panic=%v, written: %q", err, err, val, got)
		}
		k.checkFormatError(fe, twin, b.Bytes())
	case fWriteNone, fWritePart, fWriteOnce, fWriteSecond:
		if panicked || !errors.Is(err, rec.errs[0][0]) {
			k.Failf("failing write: err=%v panic=%v", err, val)
		}
	case fWritePanic:
		if !panicked && err == nil {
			k.Failf("panic of the writer got lost")
		}
	case fTmplPanic:
		if !panicked && err == nil || wrote {
			k.Failf("failing template: err=%v, written: %q", err, got)
		}
	}
	// a file that could not be written is written completely later
	if f == fWriteNone || f == fWritePart || f == fWritePanic || f == fWriteOnce || f == fWriteSecond {
		var again bytes.Buffer
		if err := gopoet.WriteGoFile(&again, twin); err != nil || !bytes.Equal(again.Bytes(), b.Bytes()) {
			k.Failf("writing again after a failed write: %v\n%s", err, firstDiff(b.String(), again.String()))
		}
		k.Count("written_after_failure", 1)
	}
	k.Count("single_files_"+faultNames[f], 1)
	k.Nontrivial(faultNames[f] + b.String())
}
