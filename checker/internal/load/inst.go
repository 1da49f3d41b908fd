package load

import "strings"

// InstPath is a synthetic package (analysed, never compiled or run) that
// instantiates the generic functions of the repository at the type arguments
// the rules examine.
const InstPath = "zkverif/inst"

func instImports() []string {
	return []string{
		"github.com/consensys/gnark/frontend",
		"github.com/consensys/gnark/std/math/emulated",
		Module + "/circuits/gadgets/emulated",
		Module + "/circuits/gadgets/utils",
		Module + "/common/utils",
		Module + "/circuits/gadgets/emulated/mimc",
		Module + "/circuits/gadgets/merkle",
		Module + "/circuits/gadgets/sha256",
		Module + "/circuits/gadgets/sha512",
		"github.com/consensys/gnark-crypto/ecc",
	}
}

var instSource = func() string {
	s := `package inst
import (
	"github.com/consensys/gnark/frontend"
	ge "github.com/consensys/gnark/std/math/emulated"
	ze "` + Module + `/circuits/gadgets/emulated"
	zu "` + Module + `/circuits/gadgets/utils"
	cu "` + Module + `/common/utils"
	zm "` + Module + `/circuits/gadgets/emulated/mimc"
	mk "` + Module + `/circuits/gadgets/merkle"
	s_256 "` + Module + `/circuits/gadgets/sha256"
	s_512 "` + Module + `/circuits/gadgets/sha512"
	"github.com/consensys/gnark-crypto/ecc"
)
`
	for _, t := range InstFields {
		s += `
func FromElement_` + t + `(api frontend.API, in *ge.Element[ge.` + t + `], n int) []frontend.Variable { return ze.FromElement[ge.` + t + `](api, in, n) }
func ToElement_` + t + `(api frontend.API, in []frontend.Variable, n int) *ge.Element[ge.` + t + `] { return ze.ToElement[ge.` + t + `](api, in, n) }
func ToElements_` + t + `(api frontend.API, in []frontend.Variable, n int) []*ge.Element[ge.` + t + `] { return ze.ToElements[ge.` + t + `](api, in, n) }
func Limbs_` + t + `() (int, int) { var p ge.` + t + `; return int(p.NbLimbs()), int(p.BitsPerLimb()) }
`
	}
	for _, t := range MimcFields {
		s += strings.ReplaceAll(`
func MimcHash_T(api frontend.API, id ecc.ID, a []*ge.Element[ge.T]) *ge.Element[ge.T] { return zm.NewMiMC[ge.T](api, id).Hash(a...) }
func MimcWriteSum_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Write(a...); h.Write(b...); return h.Sum() }
func MimcTwice_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Hash(a...); return h.Hash(b...) }
func MimcPending_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Write(a...); return h.Hash(b...) }
func MimcSumReset_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Write(a...); h.Sum(); h.Reset(); h.Write(b...); return h.Sum() }
func MimcSumWriteSum_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Write(a...); h.Sum(); h.Write(b...); return h.Sum() }
func MimcSumTwice_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); h.Write(a...); h.Write(b...); h.Sum(); return h.Sum() }
func MimcInter_T(api frontend.API, id ecc.ID, a, b []*ge.Element[ge.T]) *ge.Element[ge.T] { h := zm.NewMiMC[ge.T](api, id); g := zm.NewMiMC[ge.T](api, id); h.Write(a...); g.Write(b...); h.Sum(); return g.Sum() }
func MimcRoot_T(api frontend.API, id ecc.ID, a []*ge.Element[ge.T]) *ge.Element[ge.T] { return mk.NewMimcRootAPI[ge.T](api, id).MimcRoot(a) }
func MimcRestore_T(api frontend.API, id ecc.ID, leaf *ge.Element[ge.T], a []*ge.Element[ge.T], lr []frontend.Variable) *ge.Element[ge.T] { return mk.NewMimcRootAPI[ge.T](api, id).RestoreMimcRoot(leaf, a, lr) }
func MimcRestoreTwice_T(api frontend.API, id ecc.ID, leaf *ge.Element[ge.T], a []*ge.Element[ge.T], lr []frontend.Variable) *ge.Element[ge.T] { x := mk.NewMimcRootAPI[ge.T](api, id); x.MimcRoot(a); return x.RestoreMimcRoot(leaf, a, lr) }
func Element_T() ge.Element[ge.T] { var e ge.Element[ge.T]; return e }
`, "_T", "_"+t)
		s = strings.ReplaceAll(s, "ge.T]", "ge."+t+"]")
	}
	for _, k := range []string{"256", "512"} {
		s += strings.ReplaceAll(`
func Sha_T(api frontend.API, parts [][]frontend.Variable) []frontend.Variable { d := s_T.New(api); for _, p := range parts { d.Write(p) }; return d.Sum() }
func ShaTwice_T(api frontend.API, parts [][]frontend.Variable) []frontend.Variable { d := s_T.New(api); for _, p := range parts { d.Write(p); d.Sum() }; d.Sum(); return d.Sum() }
func ShaReset_T(api frontend.API, old []frontend.Variable, parts [][]frontend.Variable) []frontend.Variable { d := s_T.New(api); d.Write(old); d.Reset(); for _, p := range parts { d.Write(p) }; return d.Sum() }
func ShaInter_T(api frontend.API, a, b []frontend.Variable) ([]frontend.Variable, []frontend.Variable) { d := s_T.New(api); e := s_T.New(api); d.Write(a); e.Write(b); return d.Sum(), e.Sum() }
func U8_T(api frontend.API, a frontend.Variable) []frontend.Variable { x := s_T.NewUint8API(api).AsUint8(a); return x[:] }
func U8From_T(api frontend.API, a frontend.Variable) frontend.Variable { u := s_T.NewUint8API(api); return u.FromUint8(u.AsUint8(a)) }
func U8Xor_T(api frontend.API, a, b frontend.Variable) frontend.Variable { u := s_T.NewUint8API(api); return u.FromUint8(u.Xor(u.AsUint8(a), u.AsUint8(b))) }
`, "_T", "_"+k)
		if k == "512" {
			s = s[:strings.Index(s, "\nfunc U8_512")] + "\n"
		}
	}
	s += `
func CUFlipInt(in []int) []int { return cu.Flip[int](in) }
func CUFlipVar(in []frontend.Variable) []frontend.Variable { return cu.Flip[frontend.Variable](in) }
func FlipByGroupsInt(in []int, n int) []int { return cu.FlipByGroups[int](in, n) }
func ReverseInt(in []int) []int { return cu.Reverse[[]int](in) }
func FlipInt(in []int) []int { return zu.Flip[int](in) }
func FlipSubSliceInt(in []int, n int) []int { return zu.FlipSubSlice[int](in, n) }
func FlipVar(in []frontend.Variable) []frontend.Variable { return zu.Flip[frontend.Variable](in) }
func FlipSubSliceVar(in []frontend.Variable, n int) []frontend.Variable { return zu.FlipSubSlice[frontend.Variable](in, n) }
func Slice2FVsByte(in []byte) []frontend.Variable { return zu.Slice2FVs[byte](in) }
func Slice2FVsInt(in []int) []frontend.Variable { return zu.Slice2FVs[int](in) }
`
	return s
}()

// MimcFields are the emulated fields the MiMC gadgets are examined over.
var MimcFields = []string{"BLS12377Fr", "BN254Fr", "BW6761Fr"}

// InstFields are the emulated fields examined.
var InstFields = []string{"BLS12377Fr", "BN254Fr", "BLS12381Fp", "Secp256k1Fp", "Goldilocks", "BW6761Fp"}
