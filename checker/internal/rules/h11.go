package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/ai"
	"zkcheck/internal/flow"
)

// artefact describes one file helper: the name parameter and the object or bytes it moves.
type artefact struct {
	f       *ssa.Function
	name    *flow.Term
	obj     *flow.Term // nil when the helper returns the bytes
	writer  bool
	writers map[string]bool
	readers map[string]bool
}

func artefactOf(e *flow.Engine, f *ssa.Function) *artefact {
	a := &artefact{f: f}
	switch {
	case strings.HasPrefix(f.Name(), "Write"):
		a.writer = true
	case strings.HasPrefix(f.Name(), "Read"):
	default:
		return nil
	}
	a.writers = map[string]bool{"WriteTo": true, "WriteRawTo": true}
	if strings.Contains(f.Name(), "Solidity") {
		a.writers = map[string]bool{"ExportSolidity": true}
	}
	a.readers = map[string]bool{"ReadFrom": true, "UnsafeReadFrom": true}
	for _, p := range f.Params {
		t := e.Param(p.Name(), p.Type())
		switch {
		case isStringType(p.Type()):
			if a.name != nil {
				return nil
			}
			a.name = t
		default:
			if a.obj != nil {
				return nil
			}
			a.obj = t
		}
	}
	if a.name == nil || a.writer && a.obj == nil {
		return nil
	}
	return a
}

// diskFile is a file as a path leaves it: what its name is and the operations that produced its content.
type diskFile struct {
	name  *flow.Term
	fresh bool // starts empty
	ops   []*flow.Event
	buf   []*flow.Term // buffered writers over it that hold data
}

const (
	oTrunc = 0x200
	oExcl  = 0x80
)

func methodName(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// artefactPath decides one path of a helper.
func artefactPath(c *Ctx, e *flow.Engine, a *artefact, p *flow.Path) string {
	if p.Kind == "undecided" {
		return "undecided: " + p.Note
	}
	if p.Kind != "return" {
		return ""
	}
	if isnil, known := p.Nil(p.Results[len(p.Results)-1]); known && !isnil {
		return ""
	}
	at := func(ev *flow.Event) string { return fmt.Sprintf("%s (%s)", ev.Name, c.Prog.Pos(ev.Pos)) }
	handles := map[*flow.Term]*diskFile{}
	disk := map[*flow.Term]*diskFile{} // by name
	wraps := map[*flow.Term]*diskFile{}
	var got *flow.Term // the bytes a reader obtained
	nRead := 0
	whole := func(n, data *flow.Term, ev *flow.Event) {
		disk[n] = &diskFile{name: n, fresh: true, ops: []*flow.Event{ev}}
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" || isLogging(ev.Name) {
			continue
		}
		failed := false
		if ev.Err != nil {
			if isnil, known := p.Nil(ev.Err); known && !isnil {
				failed = true
			}
		}
		arg := func(i int) *flow.Term { return flow.Strip(ev.Args[i]) }
		switch {
		case opensFile(ev.Name):
			if failed {
				continue
			}
			d := &diskFile{name: arg(0)}
			switch ev.Name {
			case "os.Create":
				d.fresh = true
			case "os.CreateTemp":
				d.fresh, d.name = true, ev.Results[0]
			case "os.OpenFile":
				k, ok := flow.ConstInt(ev.Args[1])
				if !ok {
					return fmt.Sprintf("the flags of %s are not constant", at(ev))
				}
				if !a.writer && k&(oTrunc) != 0 {
					return fmt.Sprintf("%s empties the file it reads", at(ev))
				}
				d.fresh = k&(oTrunc|oExcl) != 0
			}
			handles[ev.Results[0]] = d
			disk[d.name] = d
		case writesWhole(ev.Name):
			if !failed {
				whole(arg(0), arg(1), ev)
			}
		case ev.Name == "os.ReadFile" || ev.Name == "io/ioutil.ReadFile":
			if failed {
				continue
			}
			if arg(0) != a.name {
				return fmt.Sprintf("%s does not read the file named by the caller", at(ev))
			}
			got = ev.Results[0]
			nRead++
		case ev.Name == "os.Rename":
			if failed {
				continue
			}
			d := disk[arg(0)]
			if d == nil {
				// the name of a temporary file
				for h, x := range handles {
					if flow.Contains(arg(0), h) {
						d = x
					}
				}
			}
			if d == nil {
				return fmt.Sprintf("%s moves a file that was not written here", at(ev))
			}
			disk[arg(1)] = d
			delete(disk, d.name)
			d.name = arg(1)
		case ev.Name == "os.Remove" || ev.Name == "os.RemoveAll":
			if flow.Contains(arg(0), a.name) && arg(0) == a.name {
				disk[a.name] = nil
			}
		case ev.Name == "bufio.NewWriter" || ev.Name == "bufio.NewWriterSize" || ev.Name == "bufio.NewReader" || ev.Name == "bufio.NewReaderSize":
			if d := handles[arg(0)]; d != nil {
				wraps[ev.Results[0]] = d
			}
		default:
			var d *diskFile
			var on *flow.Term
			for i := range ev.Args {
				if x := handles[arg(i)]; x != nil {
					d, on = x, arg(i)
				}
				if x := wraps[arg(i)]; x != nil {
					d, on = x, arg(i)
				}
			}
			if d == nil {
				if a.writer || a.obj == nil || nRead == 0 {
					continue
				}
				for i := range ev.Args {
					if arg(i) == a.obj && !artefactQuery(ev.Name) {
						return fmt.Sprintf("%s works on the object after it was read", at(ev))
					}
				}
				continue
			}
			m := methodName(ev.Name)
			switch m {
			case "Close", "Sync", "Name", "Stat", "Chmod", "Fd":
				continue
			case "Flush":
				d.buf = drop(d.buf, on)
				continue
			}
			if failed {
				return fmt.Sprintf("success may be returned at %s although %s failed", c.at(p), at(ev))
			}
			if a.writer {
				if wraps[on] != nil {
					d.buf = append(drop(d.buf, on), on)
				}
				d.ops = append(d.ops, ev)
				continue
			}
			// a reader
			nRead++
			switch {
			case a.obj != nil && a.readers[m] && arg(0) == a.obj:
			case a.obj == nil && (ev.Name == "io.ReadAll" || ev.Name == "io/ioutil.ReadAll"):
				got = ev.Results[0]
			default:
				return fmt.Sprintf("%s reads or moves within the file before the object is read", at(ev))
			}
			if d.name != a.name {
				return fmt.Sprintf("%s reads a file that is not the one named by the caller", at(ev))
			}
		}
	}
	if !a.writer {
		switch {
		case nRead == 0:
			return fmt.Sprintf("success may be returned at %s without reading the file", c.at(p))
		case nRead > 1:
			return fmt.Sprintf("the file is read %d times on the path that ends at %s", nRead, c.at(p))
		case a.obj == nil && flow.Strip(p.Results[0]) != got:
			return fmt.Sprintf("the path that ends at %s returns %s, not the file's content", c.at(p), clip(p.Results[0].String()))
		}
		return ""
	}
	d := disk[a.name]
	switch {
	case d == nil:
		return fmt.Sprintf("success may be returned at %s without a file of the caller's name", c.at(p))
	case !d.fresh:
		return fmt.Sprintf("the path that ends at %s writes over an existing file without emptying it: its old tail remains", c.at(p))
	case len(d.buf) > 0:
		return fmt.Sprintf("the path that ends at %s leaves buffered data unwritten", c.at(p))
	case len(d.ops) == 0:
		return fmt.Sprintf("success may be returned at %s with an empty file", c.at(p))
	case len(d.ops) > 1:
		return fmt.Sprintf("%s also writes to the file, beside %s", at(d.ops[1]), at(d.ops[0]))
	}
	op := d.ops[0]
	m := methodName(op.Name)
	_, bytes := a.obj.Typ.Underlying().(*types.Slice)
	if bytes {
		for i := 1; i < len(op.Args); i++ {
			if flow.Strip(op.Args[i]) == a.obj && (strings.HasPrefix(m, "Write") || m == "Fprint") {
				return ""
			}
		}
		return fmt.Sprintf("%s does not write exactly the caller's bytes", at(op))
	}
	if writesWhole(op.Name) {
		return fmt.Sprintf("%s writes %s: not recognised as the object's serialisation", at(op), clip(op.Args[1].String()))
	}
	if flow.Strip(op.Args[0]) != a.obj || !a.writers[m] {
		return fmt.Sprintf("%s is not the serialisation of the caller's object that the matching reader expects", at(op))
	}
	return ""
}

func artefactQuery(n string) bool {
	m := methodName(n)
	return strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Nb") || strings.HasPrefix(m, "String") || strings.HasPrefix(m, "CurveID") || strings.HasPrefix(m, "IsNil")
}

func drop(s []*flow.Term, x *flow.Term) []*flow.Term {
	var o []*flow.Term
	for _, t := range s {
		if t != x {
			o = append(o, t)
		}
	}
	return o
}

func init() {
	register("H11", "Path-sensitive model of the files each helper touches: on every path of a writer that may report success, the file of exactly the caller's name starts empty and receives exactly one operation, the caller's object serialised (or the caller's bytes) in a form the matching reader accepts, with nothing left in a buffer; every successful reader opens exactly the caller's file and hands it, from its first byte and once, to the caller's object, or returns its whole content; open-or-create empties nothing that exists.", func(c *Ctx) {
		n := 0
		for _, f := range hostRoots(c, []string{"common/utils"}) {
			if !exported(f) || f.Signature.Recv() != nil {
				continue
			}
			e := flowEngine(c)
			a := artefactOf(e, f)
			if a == nil {
				continue
			}
			n++
			paths := e.Explore(f)
			c.sawFlow(e, paths)
			bad := ""
			for _, p := range paths {
				if m := artefactPath(c, e, a, p); m != "" && bad == "" {
					bad = m
				}
			}
			rule := "artefact-read"
			if a.writer {
				rule = "artefact-write"
			}
			c.Check(rule, flow.Name(f), bad == "", bad)
		}
		c.Floor("artefact-read", 9)
		c.Floor("artefact-write", 10)
		openOrCreate(c)
		c.Assume = append(c.Assume, "gnark's ReadFrom/UnsafeReadFrom accept what WriteTo/WriteRawTo of the same object produced", "a file opened with O_EXCL or O_TRUNC starts empty")
	})
}

// openOrCreate: the file is created (and so emptied) only where opening it is known to have failed because it
// does not exist, and the handle of the caller's path is returned.
func openOrCreate(c *Ctx) {
	const pkg, fn = "common/utils", "CreateOrOpenFile"
	f := ai.FindFunc(c.Prog, pkg, fn)
	if f == nil {
		c.Fail("open-or-create", pkg+"."+fn, "anchor not found")
		return
	}
	e := flowEngine(c)
	paths := e.Explore(f)
	c.sawFlow(e, paths)
	name := e.Param(f.Params[0].Name(), f.Params[0].Type())
	bad := ""
	for _, p := range paths {
		m := func() string {
			if p.Kind == "undecided" {
				return "undecided: " + p.Note
			}
			if p.Kind != "return" {
				return ""
			}
			var opened []*flow.Term
			var openErr []*flow.Term
			for _, ev := range p.Events {
				if !opensFile(ev.Name) {
					continue
				}
				if flow.Strip(ev.Args[0]) != name {
					return fmt.Sprintf("%s (%s) does not open the caller's path", ev.Name, c.Prog.Pos(ev.Pos))
				}
				empties := ev.Name == "os.Create"
				if ev.Name == "os.OpenFile" {
					k, ok := flow.ConstInt(ev.Args[1])
					empties = !ok || k&oTrunc != 0 && k&oExcl == 0
				}
				if empties && !notExist(p, openErr) {
					return fmt.Sprintf("%s (%s) may empty an existing file: it is reached although opening was not refused for a missing file; %s", ev.Name, c.Prog.Pos(ev.Pos), pathTrace(c, p))
				}
				if isnil, known := p.Nil(ev.Err); !known || isnil {
					opened = append(opened, ev.Results[0])
				}
				openErr = append(openErr, ev.Err)
			}
			if isnil, known := p.Nil(p.Results[1]); known && !isnil {
				return ""
			}
			for _, h := range opened {
				if flow.Strip(p.Results[0]) == h {
					return ""
				}
			}
			return fmt.Sprintf("success is returned at %s without the opened file", c.at(p))
		}()
		if m != "" && bad == "" {
			bad = m
		}
	}
	c.Check("open-or-create", flow.Name(f), bad == "", bad)
}

// notExist: the path has established that one of the errors means the file does not exist.
func notExist(p *flow.Path, errs []*flow.Term) bool {
	for _, d := range p.Facts {
		t := d.Cond
		v := d.Val
		for t.Op == "not" {
			t, v = t.Args[0], !v
		}
		if !v {
			continue
		}
		name, args, _, ok := flow.CallOf(t)
		if !ok || (name != "errors.Is" && name != "os.IsNotExist") {
			continue
		}
		if name == "errors.Is" && !strings.Contains(args[1].String(), "ErrNotExist") {
			continue
		}
		for _, e := range errs {
			if flow.Strip(args[0]) == e {
				return true
			}
		}
	}
	return false
}
