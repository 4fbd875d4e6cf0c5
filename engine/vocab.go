package main

import (
	"go/constant"
	"go/token"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The vocabulary of the code under test: the string constants it looks maps up
// with (keys), those it compares strings with (words), and the integers it
// compares lengths with (sizes), from its SSA.

var vocabOnce sync.Once
var vocabKeys, vocabWords, vocabSizes []string

var wordRE = regexp.MustCompile(`^[A-Za-z0-9_.:-]{1,40}$`)

func (pr *Program) vocab() (keys, words, sizes []string) {
	vocabOnce.Do(func() {
		ks, ws, ns := map[string]bool{}, map[string]bool{}, map[int64]bool{}
		var isLen func(v ssa.Value) bool
		isLen = func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.Call:
				b, ok := v.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "len"
			case *ssa.Convert:
				return isLen(v.X)
			case *ssa.BinOp:
				return isLen(v.X) || isLen(v.Y)
			}
			return false
		}
		str := func(v ssa.Value) (string, bool) {
			for {
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				} else if m, ok := v.(*ssa.ChangeType); ok {
					v = m.X
				} else {
					break
				}
			}
			c, ok := v.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String {
				return "", false
			}
			s := constant.StringVal(c.Value)
			return s, wordRE.MatchString(s)
		}
		for fn := range ssautil.AllFunctions(pr.prog) {
			p := fn.Package()
			if p == nil && fn.Origin() != nil {
				p = fn.Origin().Package()
			}
			if p == nil || !strings.HasPrefix(p.Pkg.Path(), repoMod) || strings.Contains(p.Pkg.Path(), "zzverif") || strings.HasSuffix(p.Pkg.Path(), "_test") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Lookup:
						if s, ok := str(in.Index); ok {
							ks[s] = true
						}
					case *ssa.BinOp:
						for i, v := range []ssa.Value{in.X, in.Y} {
							if s, ok := str(v); ok && in.Op != token.ADD {
								ws[s] = true
							}
							if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && isLen([]ssa.Value{in.Y, in.X}[i]) {
								if n, ok := constant.Int64Val(c.Value); ok && n >= 0 {
									ns[n] = true
								}
							}
						}
					case *ssa.Call:
						// keys handed to a helper of the code's own
						f := in.Call.StaticCallee()
						if f != nil && f.Origin() != nil {
							f = f.Origin()
						}
						if f == nil || f.Pkg == nil {
							break
						}
						list := ks
						switch path := f.Pkg.Pkg.Path(); {
						case strings.HasPrefix(path, repoMod):
						case path == "strings" || path == "bytes" || path == "slices" || path == "path":
							list = ws
						default:
							list = nil
						}
						for _, v := range in.Call.Args {
							if s, ok := str(v); ok && list != nil {
								list[s] = true
							}
						}
					}
				}
			}
		}
		for k := range ks {
			vocabKeys = append(vocabKeys, k)
		}
		for k := range ws {
			vocabWords = append(vocabWords, k)
		}
		var is []int
		for n := range ns {
			is = append(is, int(n))
		}
		sort.Ints(is)
		for _, n := range is {
			vocabSizes = append(vocabSizes, strconv.Itoa(n))
		}
		sort.Strings(vocabKeys)
		sort.Strings(vocabWords)
	})
	return vocabKeys, vocabWords, vocabSizes
}
