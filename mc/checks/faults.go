package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"

	"schemaverif/fw"
)

// C17: every failure of a destination or of a source is reported.

var errFault = errors.New("injected fault")

// ignorableError has every method by which errors tell that they are not serious.
type ignorableError struct{}

func (ignorableError) Error() string   { return "" }
func (ignorableError) Ignorable() bool { return true }
func (ignorableError) Temporary() bool { return true }
func (ignorableError) Timeout() bool   { return true }

// errKinds are errors that mean something to those who know them.
var errKinds = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrShortBuffer, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrClosed, os.ErrDeadlineExceeded, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrInvalid,
	context.Canceled, context.DeadlineExceeded, bytes.ErrTooLarge,
	syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.ENOSPC, syscall.EIO, syscall.EBADF,
	&os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, ignorableError{}, fmt.Errorf("wrapped: %w", io.EOF),
}

// faultWriter fails at a byte or at a call.
type faultWriter struct {
	got    bytes.Buffer
	at     int  // byte at which it fails; -1: never
	call   int  // call that takes everything and fails nevertheless; -1: never
	once   bool // later writes succeed
	quiet  bool // the failing write takes a part, and returns no error
	err    error
	calls  int
	failed bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	fault := errFault
	if w.err != nil {
		fault = w.err
	}
	all := fault
	if w.quiet {
		fault = nil
	}
	if w.failed && !w.once {
		return 0, fault
	}
	if !w.failed && w.call == w.calls-1 {
		w.failed = true
		w.got.Write(p)
		return len(p), all
	}
	if !w.failed && w.at >= 0 && w.got.Len()+len(p) > w.at {
		w.failed = true
		n := w.at - w.got.Len()
		w.got.Write(p[:n])
		return n, fault
	}
	return w.got.Write(p)
}

// richWriter has the optional methods as well
type richWriter struct{ *faultWriter }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richWriter) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w richWriter) ReadFrom(r io.Reader) (n int64, err error) {
	p := make([]byte, 16)
	for {
		k, rerr := r.Read(p)
		m, werr := w.Write(p[:k])
		n += int64(m)
		if werr != nil {
			return n, werr
		}
		if m < k {
			return n, io.ErrShortWrite
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

// plainReader hides the optional methods of a reader.
type plainReader struct{ io.Reader }

// operations that write to a destination
type operation struct {
	name string
	run  func(w io.Writer) error
}

func textOps(c *fw.Ctx, text string) (ops []operation) {
	stmts, err := parseImpl(text)
	if err != nil {
		return nil
	}
	in := format.WithIndent(" ", 2)
	sql := func(name string, v interface{}, o ...schemalex.Option) {
		ops = append(ops, operation{"format " + name, func(w io.Writer) error { return format.SQL(w, v, o...) }})
	}
	sql("statements", stmts)
	sql("statements, indented", stmts, in)
	for _, s := range stmts {
		t, ok := s.(model.Table)
		if !ok {
			continue
		}
		sql("table", t, in)
		for col := range t.Columns() {
			sql("column", col)
		}
		for i := range t.Indexes() {
			sql("index", i, in)
			if r := i.Reference(); r != nil {
				sql("reference", r)
			}
		}
		for o := range t.Options() {
			sql("option", o)
		}
	}
	ops = append(ops, operation{"lint", func(w io.Writer) error {
		return lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), w, lint.WithIndent(" ", 2))
	}})
	return ops
}

// faultsOf runs an operation with a fault at every byte and every call.
func faultsOf(c *fw.Ctx, op operation) string {
	full := &faultWriter{at: -1, call: -1}
	if err := op.run(full); err != nil {
		return fmt.Sprintf("%s: %v", op.name, err)
	}
	want := full.got.String()
	try := func(w *faultWriter, rich bool) string {
		if c != nil {
			c.Add("faults", 1)
		}
		var dst io.Writer = w
		if rich {
			dst = richWriter{w}
		}
		err := op.run(dst)
		if err == nil && (w.failed || w.got.String() != want) {
			return fmt.Sprintf("%s: no error, although the write failed at byte %d, call %d, transient %v, quiet %v, rich %v, error %#v; written: %q of %q", op.name, w.at, w.call, w.once, w.quiet, rich, w.err, w.got.String(), want)
		}
		if err != nil && !w.failed {
			return fmt.Sprintf("%s: an error without a fault: %v", op.name, err)
		}
		return ""
	}
	for _, once := range []bool{false, true} {
		for _, rich := range []bool{false, true} {
			if s := try(&faultWriter{at: -1, call: -1}, rich); s != "" {
				return s
			}
			for k := 0; k < len(want); k++ {
				for _, quiet := range []bool{false, true} {
					if s := try(&faultWriter{at: k, call: -1, once: once, quiet: quiet}, rich); s != "" {
						return s
					}
				}
			}
			for j := 0; j < full.calls; j++ {
				if s := try(&faultWriter{at: -1, call: j, once: once}, rich); s != "" {
					return s
				}
			}
			for _, e := range errKinds {
				for _, k := range []int{0, len(want) / 2, len(want) - 1} {
					if k >= 0 && k < len(want) {
						if s := try(&faultWriter{at: k, call: -1, once: once, err: e}, rich); s != "" {
							return s
						}
					}
				}
				for _, j := range []int{0, full.calls - 1} {
					if j >= 0 {
						if s := try(&faultWriter{at: -1, call: j, once: once, err: e}, rich); s != "" {
							return s
						}
					}
				}
			}
		}
	}
	return ""
}

func judgeWrites(c *fw.Ctx, payload string) string {
	for _, op := range textOps(c, payload) {
		if s := faultsOf(c, op); s != "" {
			return s
		}
	}
	return ""
}

func diffOps(c *fw.Ctx, payload string) (ops []operation) {
	from, to, _ := strings.Cut(payload, pairSep)
	s1, err := parseImpl(from)
	s2, err2 := parseImpl(to)
	if err != nil || err2 != nil {
		return nil
	}
	for _, txn := range []bool{false, true} {
		o := diff.WithTransaction(txn)
		n := fmt.Sprintf(", transaction %v", txn)
		ops = append(ops,
			operation{"diff.Strings" + n, func(w io.Writer) error { return diff.Strings(w, from, to, o) }},
			operation{"diff.Statements" + n, func(w io.Writer) error { return diff.Statements(w, s1, s2, o) }},
			operation{"diff.Sources" + n, func(w io.Writer) error {
				return diff.Sources(w, schemalex.NewReaderSource(strings.NewReader(from)), schemalex.NewReaderSource(plainReader{strings.NewReader(to)}), o)
			}})
	}
	return ops
}

// judgeOthers: what a text does not contain.
func judgeOthers(c *fw.Ctx, payload string) string {
	var ops []operation
	for t := model.ColumnTypeInvalid + 1; t < model.ColumnTypeMax; t++ {
		ops = append(ops, operation{"format column type", func(w io.Writer) error { return format.SQL(w, t) }})
	}
	ops = append(ops, operation{"format database", func(w io.Writer) error { return format.SQL(w, model.NewDatabase("d")) }})
	for _, op := range ops {
		if s := faultsOf(c, op); s != "" {
			return s
		}
	}
	return ""
}

func judgeDiffWrites(c *fw.Ctx, payload string) string {
	for _, op := range diffOps(c, payload) {
		var b bytes.Buffer
		if op.run(&b) != nil {
			continue // an index without a name
		}
		if s := faultsOf(c, op); s != "" {
			return s
		}
	}
	return ""
}

// judgeCopies: the sources copy to a destination that fails.
func judgeCopies(c *fw.Ctx, payload string) string {
	dir, err := os.MkdirTemp(scratchDir(c), "copy")
	if err != nil {
		return "machinery: " + err.Error()
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f")
	if err := os.WriteFile(fn, []byte(payload), 0644); err != nil {
		return "machinery: " + err.Error()
	}
	for _, op := range []operation{
		{"reader source", func(w io.Writer) error {
			return schemalex.NewReaderSource(plainReader{strings.NewReader(payload)}).WriteSchema(w)
		}},
		{"reader source (WriterTo)", func(w io.Writer) error {
			return schemalex.NewReaderSource(strings.NewReader(payload)).WriteSchema(w)
		}},
		{"reader source, one byte at a time", func(w io.Writer) error {
			return schemalex.NewReaderSource(&shortReader{payload}).WriteSchema(w)
		}},
		{"file source", func(w io.Writer) error { return schemalex.NewLocalFileSource(fn).WriteSchema(w) }},
	} {
		if s := faultsOf(c, op); s != "" {
			return s
		}
	}
	return ""
}

// faultReader fails at a byte
type faultReader struct {
	s    string
	at   int
	one  bool // one byte at a time
	with bool // the error comes together with the last bytes
	err  error
	fail bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.at == 0 {
		r.fail = true
		return 0, r.err
	}
	n := r.at
	if r.one && n > 1 {
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.s[:n])
	r.s = r.s[n:]
	if r.at -= n; r.at == 0 && r.with {
		r.fail = true
		return n, r.err
	}
	return n, nil
}

// judgeReads: sources that fail at any byte. The payload is a schema.
func judgeReads(c *fw.Ctx, payload string) string {
	other := "CREATE TABLE other (z INT)"
	kinds := append([]error{errFault, io.ErrUnexpectedEOF, io.ErrClosedPipe}, errKinds[1:]...)
	for i, e := range kinds {
		for at := 0; at <= len(payload); at++ {
			if i > 2 && at != 0 && at != len(payload)/2 && at != len(payload) {
				continue
			}
			for v := 0; v < 4; v++ {
				mk := func() (schemalex.SchemaSource, *faultReader) {
					r := &faultReader{s: payload, at: at, one: v&1 != 0, with: v&2 != 0, err: e}
					return schemalex.NewReaderSource(r), r
				}
				good := func() schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader(other)) }
				for k, run := range []func(s schemalex.SchemaSource, w io.Writer) error{
					func(s schemalex.SchemaSource, w io.Writer) error { return s.WriteSchema(w) },
					func(s schemalex.SchemaSource, w io.Writer) error { return diff.Sources(w, s, good()) },
					func(s schemalex.SchemaSource, w io.Writer) error { return diff.Sources(w, good(), s) },
					func(s schemalex.SchemaSource, w io.Writer) error {
						return lint.New().Run(context.Background(), s, w)
					},
				} {
					if c != nil {
						c.Add("faults", 1)
					}
					s, r := mk()
					var b bytes.Buffer
					err := run(s, &b)
					name := []string{"WriteSchema", "diff.Sources (from)", "diff.Sources (to)", "lint"}[k]
					if err == nil {
						return fmt.Sprintf("%s: no error, although the source failed at byte %d with %v (fault delivered: %v)", name, at, e, r.fail)
					}
					if k > 0 && b.Len() > 0 {
						return fmt.Sprintf("%s: %q has been written, although the source failed at byte %d with %v", name, b.String(), at, e)
					}
				}
			}
		}
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{ID: "C17", Level: "model_checking",
		Rule:   "For every operation that writes (format of each kind of object, lint, diff through each entry point, the copying sources) and each of its inputs, the destination fails at every byte (short write with and without an error) and at every call (everything taken, and an error), permanently and once, with and without optional writer methods; for every operation that reads, the source fails at every byte with several errors, alone and together with data, in blocks and byte by byte.",
		Probes: map[string]fw.Probe{"writes": judgeWrites, "diff": judgeDiffWrites, "copies": judgeCopies, "reads": judgeReads, "others": judgeOthers},
		Leveled: func(m *fw.Merged, cov map[string]interface{}) {
			cov["states"] = m.Counts["inputs"]
			cov["transitions"] = m.Counts["faults"]
			cov["traces_validated_against_impl"] = m.Counts["faults"]
		},
		Explore: func(c *fw.Ctx) {
			run := func(probe, p string) {
				if !c.Expired() {
					c.Add("inputs", 1)
					c.Run(probe, p)
					if c.Worker == 0 {
						c.Sample(probe + ": " + p)
					}
				}
			}
			for _, s := range append(append([]string{}, catStmts...), entrySchemas...) {
				if c.Mine() {
					run("reads", s)
				}
				for n := 0; n <= 3; n++ {
					if c.Mine() {
						run("copies", strings.Repeat(s, n))
					}
				}
			}
			if c.Mine() {
				run("others", "")
			}
			for _, n := range []int{1, 511, 512, 513, 4096, 32767, 32768, 32769, 70000} {
				if c.Mine() {
					run("big", strconv.Itoa(n))
				}
			}
			var list []string
			for _, x := range idxFieldsCore {
				list = append(list, "CREATE TABLE t (a INT NOT NULL, b VARCHAR(10) NOT NULL, c GEOMETRY NOT NULL, "+x+")")
			}
			for _, l := range [][]string{list, entrySchemas, catStmts} {
				for _, a := range l {
					for _, b := range l {
						if c.Mine() {
							run("diff", a+pairSep+b)
						}
					}
				}
			}
			someTexts(c, c.Thorough, func(text string) { run("writes", text) })
		}})
	fw.Registry["C17"].Probes["big"] = judgeBigCopies
}

// judgeBigCopies: more than a block of data, failing around the boundaries of blocks.
func judgeBigCopies(c *fw.Ctx, payload string) string {
	n, _ := strconv.Atoi(payload)
	text := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
	dir, err := os.MkdirTemp(scratchDir(c), "copy")
	if err != nil {
		return "machinery: " + err.Error()
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f")
	if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
		return "machinery: " + err.Error()
	}
	for _, src := range []func() schemalex.SchemaSource{
		func() schemalex.SchemaSource { return schemalex.NewLocalFileSource(fn) },
		func() schemalex.SchemaSource { return schemalex.NewReaderSource(plainReader{strings.NewReader(text)}) },
	} {
		for _, k := range []int{-1, 0, 1, 511, 512, 513, 4095, 4096, 32767, 32768, 32769, n - 2, n - 1} {
			if k >= n || k < -1 {
				continue
			}
			for _, rich := range []bool{false, true} {
				w := &faultWriter{at: k, call: -1}
				var dst io.Writer = w
				if rich {
					dst = richWriter{w}
				}
				if c != nil {
					c.Add("faults", 1)
				}
				err := src().WriteSchema(dst)
				if (err != nil) != (k >= 0) {
					return fmt.Sprintf("%d bytes, the destination fails at %d: error %v", n, k, err)
				}
				if err == nil && w.got.String() != text {
					return fmt.Sprintf("%d bytes: only %d were delivered", n, w.got.Len())
				}
			}
			if k >= 0 {
				r := &faultReader{s: text, at: k, err: errFault}
				var b bytes.Buffer
				if err := schemalex.NewReaderSource(r).WriteSchema(&b); err == nil {
					return fmt.Sprintf("%d bytes, the source fails at %d: no error", n, k)
				}
			}
		}
	}
	return ""
}
