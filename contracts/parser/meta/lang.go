//go:build go1.21

package meta

import "strings"

// The specification language of gocv, and its meaning when specifications are executed.
//
// Contracts are functions C_<Type>__<Method>(receiver, parameters, results).  They are never called.
// Spec functions are ordinary functions over rune positions of the input; "opaque" ones are
// uninterpreted for the prover until it unfolds them.

// Input is the text that specifications talk about when they are executed.
var Input []rune

// InputErr is the error that ends the input.
var InputErr error

// InputFilename is the configured file name.
var InputFilename string

// IntMap is the content of a map.
type IntMap struct{ M map[int]int }

// intrinsic: requires
func Requires(conds ...bool) {}

// intrinsic: invariant
func Invariant(conds ...bool) {}

// intrinsic: ensures
func Ensures(tag string, conds ...bool) {}

// intrinsic: modifies
func Modifies(locs ...interface{}) {}

// intrinsic: locs
func Locs(locs ...interface{}) bool { return true }

// intrinsic: elems
func Elems(slice interface{}) interface{} { return nil }

// intrinsic: mapOf
func MapOf(m interface{}) interface{} { return nil }

// intrinsic: ghost
func Ghost(x interface{}, name string) int { return 0 }

// intrinsic: anyObject
func AnyObject(p interface{}) interface{} { return nil }

// intrinsic: post
func Post() {}

// intrinsic: decreases
func Decreases(x ...int) {}

// intrinsic: entry
func Entry[T any](x T) T { return x }

// intrinsic: fresh
func Fresh(x ...interface{}) {}

// intrinsic: arrKept
func ArrKept[T any](now, before []T) bool { return true }

// intrinsic: same
func Same[T any](a, b T) bool { return true }

// intrinsic: samePos
func SamePos[T any](a, b T) bool { return true }

// intrinsic: sameText
func SameText[T any](a, b T) bool { return true }

// intrinsic: sameLead
func SameLead[T any](a, b T) bool { return true }

// intrinsic: sameInline
func SameInline[T any](a, b T) bool { return true }

// intrinsic: implies
func Implies(a, b bool) bool { return !a || b }

// intrinsic: isType
func IsType(x, t interface{}) bool { return false }

// intrinsic: owned
func Owned(x interface{}) bool { return true }

// intrinsic: distinctArrays
func DistinctArrays(x ...interface{}) bool { return true }

// intrinsic: reveal
func Reveal(f ...interface{}) {}

// Seq is the content of a slice.
// intrinsic: unseq
func Seq[T any](s []T) []T { return s }

// intrinsic: use
func Use(lemmas ...bool) {}

// intrinsic: mapContent
func MapContent(m map[int]int) IntMap { return IntMap{m} }

// intrinsic: mapGet
func MapGet(m IntMap, k int) int { return m.M[k] }

// intrinsic: mapPut
func MapPut(m IntMap, k, x int) IntMap { return m }

// N is the number of runes of the input.
// intrinsic: N
func N() int { return len(Input) }

// At is the rune at a position, and -1 from the end on.
// intrinsic: at
func At(k int) rune {
	if k < 0 || k >= len(Input) {
		return -1
	}
	return Input[k]
}

// Str is the text between two positions.
// intrinsic: str
func Str(a, b int) string { return string(Input[a:b]) }

// intrinsic: chr
func Chr(r rune) string { return string(r) }

// intrinsic: fwd
func Fwd(a, b int) []rune { return Input[a:b] }

// intrinsic: rev
func Rev(a, b int) []rune { return nil }

// intrinsic: filename
func Filename() string { return InputFilename }

// Rerr is the error that ends the input.
// intrinsic: rerr
func Rerr() error { return InputErr }

// Replaced is what a replacer makes of a text.
// intrinsic: replaced
func Replaced(s string, oldnew ...string) string { return strings.NewReplacer(oldnew...).Replace(s) }

// BuilderText is what was written to a builder.
// intrinsic: builderText
func BuilderText(b *strings.Builder) string { return b.String() }

// RLen is the number of characters of a text.
// intrinsic: rlen
func RLen(s string) int { return len([]rune(s)) }

// RAt is the character of a text at an index.
// intrinsic: rat
func RAt(s string, i int) rune { return []rune(s)[i] }

// AppendNodes appends nodes to nodes of another type.
// intrinsic: appendNodes
func AppendNodes[T, N any](acc []T, ns []N) []T {
	for _, n := range ns {
		acc = append(acc, any(n).(T))
	}
	return acc
}
