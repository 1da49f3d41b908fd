package rules

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"zkcheck/internal/flow"
)

// The operations H01 quantifies over: everything declared in these packages
// except the generated bindings, the mocks and the format helpers documented
// as lenient.
var h01Packages = []string{"common/proof", "common/utils", "common/eth", "common/s3api", "circuits/fabric/smt"}

var h01SkipFiles = []string{"common/eth/bindings.go", "common/eth/evstr.go", "common/eth/string.go"}

// lenient helpers: documented to ignore malformed text; their result is data
// for callers that have checked the text, and callers in the audited
// operations may not use them on unchecked input (see h01Lenient).
var h01Lenient = map[string]string{
	"common/utils.Hex2Bytes":     "documented: ignores decode errors",
	"common/utils.Hex2BigInt":    "built on Hex2Bytes",
	"common/utils.Strings2bytes": "built on Hex2Bytes",
	"common/utils.Str2BigInt":    "text helper without error channel",
	"common/utils.Str2Int":       "text helper without error channel",
	"common/utils.Str2Uint64":    "text helper without error channel",
	"common/utils.Var2BigInt":    "panics on malformed text",
}

// Exports of already parsed proofs use the lenient helpers by design.
var h01Export = map[string]bool{
	"(*common/proof.ChunkProof).EncodeABI":                  true,
	"(common/proof.Groth16Proof).AsBigInts":                 true,
	"(common/proof.Groth16Proof).OnChainProof":              true,
	"(common/proof.Groth16Proof).BeaconProof":               true,
	"(*common/proof.CommitteeSszMappingProof).GetProof":     true,
	"(*common/proof.SigProof).GetCommitment":                true,
	"(*common/proof.SigProof).GetPoseidonRoot":              true,
	"(*common/proof.SMTUpdateProof).GetOldSmtRoot":          true,
	"(*common/proof.SMTUpdateProof).GetNewSmtRoot":          true,
	"(*common/proof.SMTUpdateProof).GetEndBlockHash":        true,
	"(*common/proof.SMTUpdateProof).GetNextChunkMerkleRoot": true,
	"(*common/proof.SMTUpdateProof).GetCommitmentPub":       true,
	"common/proof.GetPaddedSlotBytes":                       true,
}

// ignorable: failures that cannot lose data.
func h01Ignorable(e *flow.Engine, ev *flow.Event) string {
	n := ev.Name
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		return "console output"
	case strings.Contains(n, "goutils/log."), strings.HasPrefix(n, "log."):
		return "logging"
	case strings.HasSuffix(n, ").Close"):
		return "closing is decided by H02"
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."):
		return "documented never to fail"
	case strings.HasSuffix(n, ".Write") && strings.Contains(n, "hash.Hash"):
		if len(ev.Deref) > 1 && canonicalBytes(ev.Deref[len(ev.Deref)-1]) {
			return "canonical field element encoding"
		}
	}
	return ""
}

// canonicalBytes: a concatenation of field element encodings.
func canonicalBytes(t *flow.Term) bool {
	switch t.Op {
	case "seq":
		for _, p := range t.Args {
			if p.Op != "sp" || !canonicalBytes(p.Args[0]) {
				return false
			}
		}
		return len(t.Args) > 0
	case "ret":
		return canonicalBytes(t.Args[0])
	case "call", "eff":
		n := t.Str
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return strings.Contains(n, "/fr.Element).Bytes")
	}
	return false
}

func flowEngine(c *Ctx) *flow.Engine {
	e := flow.New(c.Prog)
	q := newQuiet(func(n string) bool {
		return strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "net/http.") || h01OkMatters(n)
	})
	e.Quiet = q.call
	e.NoInline = func(f *ssa.Function) bool { return q.fn(f) }
	return e
}

// lostFailures checks that every failed step of a returning path is reported.
func lostFailures(c *Ctx, e *flow.Engine, f *ssa.Function, p *flow.Path) (string, int) {
	n := 0
	if p.Kind == "undecided" {
		return "undecided: " + p.Note, 0
	}
	if p.Kind != "return" {
		return "", 0
	}
	reported := func(ev *flow.Event, cause *flow.Term) bool {
		k := len(p.Results)
		if k == 0 {
			return false
		}
		last := p.Results[k-1]
		if errResult(f) {
			if cause != nil && (last == cause || joined(p, last, cause)) {
				return true
			}
			isnil, known := p.Nil(last)
			if known && !isnil {
				return true
			}
			return false
		}
		// functions without an error result announce failure by the zero
		// value of every result (false / 0), as documented for them
		if h01ZeroIsFailure[flow.Name(f)] {
			for _, r := range p.Results {
				if !isZeroTerm(r) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, ev := range p.Events {
		if ev.Kind != "call" {
			continue
		}
		if ev.Err != nil {
			if h01Ignorable(e, ev) != "" {
				continue
			}
			n++
			isnil, known := p.Nil(ev.Err)
			if known && isnil {
				continue
			}
			if recoveredByCreate(e, p, ev) {
				continue
			}
			if !reported(ev, ev.Err) {
				how := "is ignored"
				if known {
					how = "is detected"
				}
				return fmt.Sprintf("a failure of %s (%s) %s but %s still returns %s at %s; %s", ev.Name, c.Prog.Pos(ev.Pos), how, flow.Name(f), termList(p.Results), c.at(p), pathTrace(c, p)), n
			}
		} else if ev.OkRes != nil && h01OkMatters(ev.Name) {
			n++
			v, known := p.Truth(ev.OkRes)
			if known && v {
				continue
			}
			if !reported(ev, nil) {
				return fmt.Sprintf("a failure of %s (%s) is not reported: %s returns %s at %s; %s", ev.Name, c.Prog.Pos(ev.Pos), flow.Name(f), termList(p.Results), c.at(p), pathTrace(c, p)), n
			}
		}
	}
	return "", n
}

// recoveredByCreate: a missing file is not a failure when the same path is
// then created.
func recoveredByCreate(e *flow.Engine, p *flow.Path, ev *flow.Event) bool {
	if ev.Name != "os.Open" && ev.Name != "os.OpenFile" && ev.Name != "os.Stat" {
		return false
	}
	missing := false
	for _, f := range p.Facts {
		if f.Val && f.Cond.Op == "call" && (f.Cond.Str == "errors.Is" || f.Cond.Str == "os.IsNotExist") && f.Cond.Args[0] == ev.Err {
			if f.Cond.Str == "os.IsNotExist" || strings.Contains(f.Cond.Args[1].String(), "ErrNotExist") {
				missing = true
			}
		}
	}
	if !missing {
		return false
	}
	after := false
	for _, o := range p.Events {
		if o == ev {
			after = true
			continue
		}
		if after && (o.Name == "os.Create" || o.Name == "os.OpenFile") && len(o.Args) > 0 && o.Args[0] == ev.Args[0] {
			return true
		}
	}
	return false
}

// h01OkMatters: (value, ok) results that announce a failed conversion.
func h01OkMatters(n string) bool { return strings.HasSuffix(n, ".SetString") }

// h01ZeroIsFailure: operations whose interface has no error result and whose
// documented failure value is the zero value of every result.
var h01ZeroIsFailure = map[string]bool{
	"(*common/eth.Client).GetSlot":  true,
	"(*common/eth.Client).GetBlock": true,
}

func joined(p *flow.Path, r, cause *flow.Term) bool {
	if r.Op == "ret" || r.Op == "call" || r.Op == "eff" {
		b := r
		if b.Op == "ret" {
			b = b.Args[0]
		}
		if strings.HasPrefix(b.Str, "errors.Join") || strings.Contains(b.Str, "multierr") {
			return flow.Contains(b, cause)
		}
	}
	return false
}

func termList(ts []*flow.Term) string {
	var s []string
	for _, t := range ts {
		x := t.String()
		if len(x) > 80 {
			x = x[:80] + "…"
		}
		s = append(s, x)
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func init() {
	register("H01", "Path-sensitive error-flow analysis of the host packages: every path of every declared operation is followed with each external step allowed to fail; on every returning path each failed or untested step must be announced by a non-nil error (or the documented failure value), otherwise the process stops. Loops are followed for up to three undetermined iterations; callees inside the repository are entered.", func(c *Ctx) {
		roots := hostRoots(c, h01Packages, h01SkipFiles...)
		total := 0
		for _, f := range roots {
			name := flow.Name(f)
			if h01Lenient[name] != "" || h01Export[name] || !exported(f) {
				continue
			}
			f := f
			// only operations with a failing step carry an obligation
			e := flowEngine(c)
			for l := range h01Lenient {
				l := l
				if l == "common/utils.Var2BigInt" {
					e.Over[l] = opaquePure(l)
				}
			}
			t0 := time.Now()
			paths := e.Explore(f)
			if debugTime {
				fmt.Fprintf(os.Stderr, "%8.2fs %6d paths %s\n", time.Since(t0).Seconds(), len(paths), name)
			}
			c.sawFlow(e, paths)
			steps := 0
			bad := ""
			for _, p := range paths {
				msg, n := lostFailures(c, e, f, p)
				steps += n
				if msg != "" && bad == "" {
					bad = msg
				}
			}
			if steps == 0 && bad == "" {
				continue
			}
			total++
			c.Count("failing_steps_on_paths", steps)
			c.Check("failure-reported", name, bad == "", bad)
		}
		c.Floor("failure-reported", 30)
		c.Assume = append(c.Assume, "an external call fails only by its error (or ok) result", "log.Fatal*/Panic* and os.Exit do not return", "hash writes of canonical field encodings, bytes.Buffer, console output and logging cannot lose data")
	})
}

// opaquePure makes a repository function an uninterpreted pure function.
func opaquePure(name string) flow.Model {
	return func(e *flow.Engine, st *flow.State, cl *flow.Call) bool {
		var as []*flow.Term
		for _, a := range cl.Args {
			as = append(as, e.Contents(st, a))
		}
		base := e.T("call", name, nil, as...)
		rs := cl.Sig.Results()
		for i := 0; i < rs.Len(); i++ {
			if rs.Len() == 1 {
				cl.Result = append(cl.Result, e.T("call", name, rs.At(0).Type(), as...))
				continue
			}
			cl.Result = append(cl.Result, e.Ret(base, i, rs.At(i).Type()))
		}
		return true
	}
}
