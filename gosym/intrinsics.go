package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type intrinsic func(e *Exec, fn *Fn, args []Val) Val

var intrinsics map[string]intrinsic
var harnessIntrinsics map[string]intrinsic

func skipInit(pkg string) bool {
	switch pkg {
	case "io", "strings", "bytes", "unicode", "unicode/utf8", "strconv", "sort", "math", "math/bits", "container/list",
		"bufio", "encoding/binary", "hash", "hash/crc32", "slices", "cmp", "unicode/utf16", "encoding/hex", "iter", "maps",
		"internal/strconv", "internal/stringslite", "internal/byteorder", "internal/bytealg", "path", "path/filepath", "internal/filepathlite", "html", "regexp/syntax", "encoding", "io/fs", "internal/oserror", "text/scanner", "encoding/xml":
		return false
	}
	if strings.HasPrefix(pkg, "github.com/benoitkugler/textlayout/") {
		// the font file formats are not needed
		return strings.Contains(pkg, "/psinterpreter") || strings.Contains(pkg, "simpleencodings") ||
			strings.Contains(pkg, "graphite") || strings.HasSuffix(pkg, "/glyphsnames")
	}
	if strings.HasPrefix(pkg, "github.com/benoitkugler/textprocessing") {
		return false
	}
	if strings.HasPrefix(pkg, "golang.org/x/text/") {
		return strings.Contains(pkg, "/encoding")
	}
	return true
}

func str(e *Exec, v Val) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			b[i] = byte(e.concretize(x))
		}
		return string(b)
	}
	e.fail("str of %T", v.p)
	return ""
}

func sliceCells(v Val) []Val {
	s, _ := v.p.(*SliceV)
	if s == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.len*s.esz]
}

func bytesOf(v Val) []Val {
	if _, ok := v.p.(*SliceV); ok || v.p == nil {
		return sliceCells(v)
	}
	return strBytes(v)
}

func (e *Exec) byteEq(a, b Val) Val {
	if a.p == nil && b.p == nil {
		return vBoolean(a.c == b.c)
	}
	return fromTerm(e.tt.op2(OpEq, e.toTerm(a, 8), e.toTerm(b, 8)))
}

func (e *Exec) bytesEq(a, b []Val) Val {
	if len(a) != len(b) {
		return vBoolean(false)
	}
	acc := vBoolean(true)
	for i := range a {
		acc = e.boolAnd(acc, e.byteEq(a[i], b[i]))
	}
	return acc
}

func (e *Exec) index(hay, needle []Val) Val {
	// first match: ite chain
	n := len(needle)
	acc := e.tt.constant(64, ^uint64(0))
	for i := len(hay) - n; i >= 0; i-- {
		eq := e.bytesEq(hay[i:i+n], needle)
		if t := eq.term(); t != nil {
			acc = e.tt.ite(t, e.tt.constant(64, uint64(i)), acc)
		} else if eq.c != 0 {
			acc = e.tt.constant(64, uint64(i))
		}
	}
	return fromTerm(acc)
}

func (e *Exec) lastIndexByte(hay []Val, c Val) Val {
	acc := e.tt.constant(64, ^uint64(0))
	for i := 0; i < len(hay); i++ {
		eq := e.byteEq(hay[i], c)
		if t := eq.term(); t != nil {
			acc = e.tt.ite(t, e.tt.constant(64, uint64(i)), acc)
		} else if eq.c != 0 {
			acc = e.tt.constant(64, uint64(i))
		}
	}
	return fromTerm(acc)
}

func allConc(v []Val) bool {
	for _, x := range v {
		if x.p != nil {
			return false
		}
	}
	return true
}

func (e *Exec) countByte(hay []Val, c Val) Val {
	acc := e.tt.constant(64, 0)
	for _, x := range hay {
		eq := e.byteEq(x, c)
		if t := eq.term(); t != nil {
			acc = e.tt.op2(OpAdd, acc, e.tt.ite(t, e.tt.constant(64, 1), e.tt.constant(64, 0)))
		} else if eq.c != 0 {
			acc = e.tt.op2(OpAdd, acc, e.tt.constant(64, 1))
		}
	}
	return fromTerm(acc)
}

// tabFloat applies f to a float value; symbolic values must be functions of one small variable
func floatFn(w uint8, f func(float64) float64) intrinsic {
	return func(e *Exec, fn *Fn, a []Val) Val {
		if a[0].p == nil {
			return Val{c: f2bits(f(bits2f(a[0].c, w)), w)}
		}
		t := a[0].p.(*Term)
		if t.op == OpTab {
			tab := make([]uint64, len(t.tab))
			for i, x := range t.tab {
				tab[i] = f2bits(f(bits2f(x, w)), w)
			}
			return fromTerm(e.tt.mkTab(w, t.v, tab))
		}
		x := e.concretize(a[0])
		return Val{c: f2bits(f(bits2f(x, w)), w)}
	}
}

// rounding to an integral float
func floatRound(op Op) intrinsic {
	return func(e *Exec, fn *Fn, a []Val) Val {
		if a[0].p == nil {
			return Val{c: evalOp(op, 64, 64, a[0].c, 0, 0)}
		}
		return fromTerm(e.tt.op1(op, 64, a[0].p.(*Term)))
	}
}

func floatFn2(f func(x, y float64) float64) intrinsic {
	return func(e *Exec, fn *Fn, a []Val) Val {
		x, y := e.concretize(a[0]), e.concretize(a[1])
		return Val{c: math.Float64bits(f(math.Float64frombits(x), math.Float64frombits(y)))}
	}
}

func intFn(rw uint8, f func(x uint64) uint64) intrinsic {
	return func(e *Exec, fn *Fn, a []Val) Val {
		if a[0].p == nil {
			return Val{c: f(a[0].c)}
		}
		t := a[0].p.(*Term)
		if t.op == OpTab {
			tab := make([]uint64, len(t.tab))
			for i, x := range t.tab {
				tab[i] = f(x)
			}
			return fromTerm(e.tt.mkTab(rw, t.v, tab))
		}
		return Val{c: f(e.concretize(a[0]))}
	}
}

func ident(e *Exec, fn *Fn, a []Val) Val { return a[0] }
func nop(e *Exec, fn *Fn, a []Val) Val   { return Val{} }

func tuple(v ...Val) Val { return Val{p: Tuple(v)} }

func (e *Exec) newSlice(cells []Val, n, esz int) Val {
	o := e.newObj(len(cells))
	copy(o.cells, cells)
	return Val{p: &SliceV{o: o, len: n, cap: n, esz: esz}}
}

func (e *Exec) mkError(msg Val) Val {
	// an *errors.errorString
	p := e.pr.prog.ImportedPackage("errors")
	if p == nil {
		e.fail("package errors not loaded")
	}
	return e.callFn(e.pr.fn(p.Func("New")), []Val{msg}, nil)
}

func init() {
	intrinsics = map[string]intrinsic{
		// only used to unmarshal values
		"reflect.TypeFor": func(e *Exec, fn *Fn, a []Val) Val { return Val{} },
		"internal/bytealg.IndexByte": func(e *Exec, fn *Fn, a []Val) Val { return e.index(bytesOf(a[0]), []Val{a[1]}) },
		"internal/bytealg.IndexByteString": func(e *Exec, fn *Fn, a []Val) Val {
			return e.index(strBytes(a[0]), []Val{a[1]})
		},
		"internal/bytealg.LastIndexByte":       func(e *Exec, fn *Fn, a []Val) Val { return e.lastIndexByte(bytesOf(a[0]), a[1]) },
		"internal/bytealg.LastIndexByteString": func(e *Exec, fn *Fn, a []Val) Val { return e.lastIndexByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Count":               func(e *Exec, fn *Fn, a []Val) Val { return e.countByte(bytesOf(a[0]), a[1]) },
		"internal/bytealg.CountString":         func(e *Exec, fn *Fn, a []Val) Val { return e.countByte(strBytes(a[0]), a[1]) },
		"internal/bytealg.Equal":               func(e *Exec, fn *Fn, a []Val) Val { return e.bytesEq(bytesOf(a[0]), bytesOf(a[1])) },
		"internal/bytealg.Compare":             compareBytes,
		"internal/bytealg.CompareString":       compareBytes,
		"internal/bytealg.MakeNoZero": func(e *Exec, fn *Fn, a []Val) Val {
			n := e.concInt(a[0])
			return e.makeSlice(n, n, e.pr.u8())
		},
		"internal/bytealg.IndexString": func(e *Exec, fn *Fn, a []Val) Val { return e.index(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.Index":       func(e *Exec, fn *Fn, a []Val) Val { return e.index(bytesOf(a[0]), bytesOf(a[1])) },
		"strings.Index":                func(e *Exec, fn *Fn, a []Val) Val { return e.index(strBytes(a[0]), strBytes(a[1])) },
		"internal/stringslite.Index":   func(e *Exec, fn *Fn, a []Val) Val { return e.index(strBytes(a[0]), strBytes(a[1])) },
		"bytes.Index":                  func(e *Exec, fn *Fn, a []Val) Val { return e.index(bytesOf(a[0]), bytesOf(a[1])) },
		"strings.Clone":                ident,
		"internal/stringslite.Clone":   ident,
		"internal/abi.NoEscape":        ident,
		"internal/abi.Escape":          ident,
		"runtime.KeepAlive":            nop,
		"runtime.GC":                   nop,
		"strings.Compare":              compareBytes,
		"bytes.Equal":                  func(e *Exec, fn *Fn, a []Val) Val { return e.bytesEq(bytesOf(a[0]), bytesOf(a[1])) },
		"bytes.Compare":                compareBytes,

		"math.Float64bits":          ident,
		"math.Float64frombits":      ident,
		"math.Float32bits":          ident,
		"math.Float32frombits":      ident,
		"math.Floor":                floatRound(OpFFloor),
		"math.Ceil":                 floatRound(OpFCeil),
		"math.Trunc":                floatRound(OpFTrunc),
		"math.Sqrt":                 floatFn(64, math.Sqrt),
		"math.Abs":                  floatFn(64, math.Abs),
		"math.Round":                floatRound(OpFRound),
		"math.Exp":                  floatFn(64, math.Exp),
		"math.Log":                  floatFn(64, math.Log),
		"math.Sin":                  floatFn(64, math.Sin),
		"math.Cos":                  floatFn(64, math.Cos),
		"math.Tan":                  floatFn(64, math.Tan),
		"math.Atan":                 floatFn(64, math.Atan),
		"math.Pow":                  floatFn2(math.Pow),
		"math.Atan2":                floatFn2(math.Atan2),
		"math.Hypot":                floatFn2(math.Hypot),
		"math.Mod":                  floatFn2(math.Mod),
		"math.archFloor":            floatRound(OpFFloor),
		"math/bits.TrailingZeros32": intFn(64, func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) }),
		"math/bits.TrailingZeros64": intFn(64, func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) }),
		"math/bits.Len32":           intFn(64, func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) }),
		"math/bits.Len64":           intFn(64, func(x uint64) uint64 { return uint64(bits.Len64(x)) }),
		"math/bits.Len":             intFn(64, func(x uint64) uint64 { return uint64(bits.Len64(x)) }),
		"math/bits.LeadingZeros32":  intFn(64, func(x uint64) uint64 { return uint64(bits.LeadingZeros32(uint32(x))) }),

		"sync/atomic.AddInt32":    atomicAdd(32),
		"sync/atomic.AddInt64":    atomicAdd(64),
		"sync/atomic.AddUint32":   atomicAdd(32),
		"sync/atomic.AddUint64":   atomicAdd(64),
		"sync/atomic.LoadInt32":   func(e *Exec, fn *Fn, a []Val) Val { return e.load(a[0], e.pr.basic(types.Int32)) },
		"sync/atomic.LoadInt64":   func(e *Exec, fn *Fn, a []Val) Val { return e.load(a[0], e.pr.basic(types.Int64)) },
		"sync/atomic.LoadUint32":  func(e *Exec, fn *Fn, a []Val) Val { return e.load(a[0], e.pr.basic(types.Uint32)) },
		"sync/atomic.LoadUint64":  func(e *Exec, fn *Fn, a []Val) Val { return e.load(a[0], e.pr.basic(types.Uint64)) },
		"sync/atomic.StoreInt32":  func(e *Exec, fn *Fn, a []Val) Val { e.store(a[0], a[1], e.pr.basic(types.Int32)); return Val{} },
		"sync/atomic.StoreUint32": func(e *Exec, fn *Fn, a []Val) Val { e.store(a[0], a[1], e.pr.basic(types.Uint32)); return Val{} },
		"sync/atomic.StoreInt64":  func(e *Exec, fn *Fn, a []Val) Val { e.store(a[0], a[1], e.pr.basic(types.Int64)); return Val{} },
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(e *Exec, fn *Fn, a []Val) Val {
			p := a[0]
			o := p.p.(*Obj)
			if o.cells[int(p.c)].c != 0 {
				return Val{}
			}
			e.setCell(o, int(p.c), vInt64(1), wNone)
			e.callVal(a[1], nil)
			return Val{}
		},
		"(*sync.Pool).Get": func(e *Exec, fn *Fn, a []Val) Val {
			p := a[0]
			ti := e.pr.ti(fn.sf.Signature.Recv().Type().Underlying().(*types.Pointer).Elem())
			o := p.p.(*Obj)
			f := o.cells[int(p.c)+ti.offs[len(ti.offs)-1]]
			if f.p == nil {
				return Val{}
			}
			return e.callVal(f, nil)
		},
		"(*sync.Pool).Put": nop,

		"sort.Slice": func(e *Exec, fn *Fn, a []Val) Val { sortSlice(e, a[0], a[1], "pdqsort_func"); return Val{} },
		"sort.SliceStable": func(e *Exec, fn *Fn, a []Val) Val {
			sortSlice(e, a[0], a[1], "stable_func")
			return Val{}
		},
		"fmt.Sprintf":  func(e *Exec, fn *Fn, a []Val) Val { return e.sprintf(str(e, a[0]), ifaces(a[1])) },
		"fmt.Sprint":   func(e *Exec, fn *Fn, a []Val) Val { return e.sprint(ifaces(a[0]), false) },
		"fmt.Sprintln": func(e *Exec, fn *Fn, a []Val) Val { return e.sprint(ifaces(a[0]), true) },
		"fmt.Errorf": func(e *Exec, fn *Fn, a []Val) Val {
			return e.mkError(e.sprintf(strings.ReplaceAll(str(e, a[0]), "%w", "%v"), ifaces(a[1])))
		},
		"fmt.Printf":  func(e *Exec, fn *Fn, a []Val) Val { return tuple(Val{}, Val{}) },
		"fmt.Println": func(e *Exec, fn *Fn, a []Val) Val { return tuple(Val{}, Val{}) },
		"fmt.Print":   func(e *Exec, fn *Fn, a []Val) Val { return tuple(Val{}, Val{}) },
		"fmt.Fprintf": func(e *Exec, fn *Fn, a []Val) Val {
			return e.writeTo(a[0], e.sprintf(str(e, a[1]), ifaces(a[2])))
		},
		"fmt.Fprint":            func(e *Exec, fn *Fn, a []Val) Val { return e.writeTo(a[0], e.sprint(ifaces(a[1]), false)) },
		"fmt.Fprintln":          func(e *Exec, fn *Fn, a []Val) Val { return e.writeTo(a[0], e.sprint(ifaces(a[1]), true)) },
		"log.Printf":            nop,
		"log.Println":           nop,
		"log.Print":             nop,
		"log.SetFlags":          nop,
		"log.New":               func(e *Exec, fn *Fn, a []Val) Val { return Val{p: e.newObj(64)} },
		"(*log.Logger).Printf":  nop,
		"(*log.Logger).Println": nop,
		"(*log.Logger).Print":   nop,
		"os.Getenv":             func(e *Exec, fn *Fn, a []Val) Val { return Val{} },
		"os.Executable":         func(e *Exec, fn *Fn, a []Val) Val { return tuple(vString("/usr/bin/program"), Val{}) },
		"os.LookupEnv":          func(e *Exec, fn *Fn, a []Val) Val { return tuple(Val{}, Val{}) },

		"strconv.Itoa": func(e *Exec, fn *Fn, a []Val) Val {
			return vString(strconv.Itoa(int(int64(e.concretize(a[0])))))
		},
		"strconv.FormatInt": func(e *Exec, fn *Fn, a []Val) Val {
			return vString(strconv.FormatInt(int64(e.concretize(a[0])), e.concInt(a[1])))
		},
		"strconv.FormatUint": func(e *Exec, fn *Fn, a []Val) Val {
			return vString(strconv.FormatUint(e.concretize(a[0]), e.concInt(a[1])))
		},
		"strconv.FormatFloat": func(e *Exec, fn *Fn, a []Val) Val {
			f := math.Float64frombits(e.concretize(a[0]))
			return vString(strconv.FormatFloat(f, byte(e.concretize(a[1])), e.concInt(a[2]), e.concInt(a[3])))
		},
		"strconv.Quote": func(e *Exec, fn *Fn, a []Val) Val { return vString(strconv.Quote(str(e, a[0]))) },
		"strconv.ParseFloat": func(e *Exec, fn *Fn, a []Val) Val {
			f, err := strconv.ParseFloat(str(e, a[0]), e.concInt(a[1]))
			r := Val{c: math.Float64bits(f)}
			if err != nil {
				return tuple(r, e.mkError(vString(err.Error())))
			}
			return tuple(r, Val{})
		},
		"unicode/utf8.RuneCountInString": func(e *Exec, fn *Fn, a []Val) Val {
			n := 0
			for i := 0; i < strLen(a[0]); n++ {
				_, k := e.decodeRune(a[0], i)
				i += k
			}
			return vInt64(int64(n))
		},
		"unicode/utf8.DecodeRuneInString": func(e *Exec, fn *Fn, a []Val) Val {
			if strLen(a[0]) == 0 {
				return tuple(Val{c: 0xFFFD}, Val{})
			}
			r, n := e.decodeRune(a[0], 0)
			return tuple(r, vInt64(int64(n)))
		},
	}

	harnessIntrinsics = map[string]intrinsic{
		"vInt": func(e *Exec, fn *Fn, a []Val) Val {
			return e.newVar(int64(e.concretize(a[0])), int64(e.concretize(a[1])))
		},
		"vAssume": func(e *Exec, fn *Fn, a []Val) Val {
			if !e.decideAssume(a[0]) {
				panic(pathEnd{kind: "pruned"})
			}
			return Val{}
		},
		"vAssert": func(e *Exec, fn *Fn, a []Val) Val {
			e.assert(a[0], a[1])
			return Val{}
		},
		"vCover": func(e *Exec, fn *Fn, a []Val) Val {
			e.covers[str(e, a[0])] = true
			return Val{}
		},
		"vCoverIf": func(e *Exec, fn *Fn, a []Val) Val {
			l := str(e, a[1])
			if e.covers[l] || e.replaying() {
				return Val{}
			}
			if t := a[0].term(); t != nil {
				if r, _ := e.feasible(t); r == 1 {
					e.covers[l] = true
				}
			} else if a[0].c != 0 {
				e.covers[l] = true
			}
			return Val{}
		},
		"vObs": func(e *Exec, fn *Fn, a []Val) Val {
			e.obs = append(e.obs, obsRec{label: str(e, a[0]), v: a[1]})
			return Val{}
		},
		"vParam": func(e *Exec, fn *Fn, a []Val) Val {
			p, ok := e.params[str(e, a[0])]
			if !ok {
				e.fail("no parameter %s", str(e, a[0]))
			}
			return vInt64(p)
		},
		"vConc": func(e *Exec, fn *Fn, a []Val) Val {
			return Val{c: e.concretize(a[0])}
		},
		"vFork": func(e *Exec, fn *Fn, a []Val) Val {
			t := a[0].term()
			if t == nil {
				return a[0]
			}
			if e.local > 0 {
				panic(mergeAbort{"fork in region"})
			}
			return vBoolean(e.decide(t))
		},
		// the boolean connectors without branches
		"vAnd": func(e *Exec, fn *Fn, a []Val) Val { return e.boolAnd(a[0], a[1]) },
		"vOr": func(e *Exec, fn *Fn, a []Val) Val {
			return fromTerm(e.tt.or(e.toTerm(a[0], 0), e.toTerm(a[1], 0)))
		},
		"vNot": func(e *Exec, fn *Fn, a []Val) Val { return fromTerm(e.tt.not(e.toTerm(a[0], 0))) },
		"vIte": func(e *Exec, fn *Fn, a []Val) Val {
			return fromTerm(e.tt.ite(e.toTerm(a[0], 0), e.toTerm(a[1], 64), e.toTerm(a[2], 64)))
		},
		// deterministic merging control
		"vMerge": func(e *Exec, fn *Fn, a []Val) Val {
			old := e.merging
			e.merging = a[0].c != 0
			return vBoolean(old)
		},
		"vMapOrder": func(e *Exec, fn *Fn, a []Val) Val {
			e.mapPerm = a[0].c != 0
			return Val{}
		},
	}
}

func (e *Exec) decideAssume(v Val) bool {
	t := v.term()
	if t == nil {
		return v.c != 0
	}
	if f, x := e.domForced(t); f {
		return x
	}
	if e.local > 0 {
		return e.decide(t) // aborts the merge unless forced
	}
	// no need to explore the other side
	if e.replaying() {
		en := e.nextEntry()
		if en.kind == eTrue {
			e.assume(t)
			return true
		}
		return en.kind == eForcedTrue
	}
	r, m := e.feasible(t)
	if r == 0 {
		return false
	}
	if r == -1 {
		e.unk("solver gave no answer for an assumption")
		panic(pathEnd{kind: "unknown"})
	}
	e.model = m
	e.log = append(e.log, entry{kind: eTrue})
	e.assume(t)
	return true
}

func (e *Exec) assert(v Val, msg Val) {
	if e.replaying() {
		// already checked by the path which created this prefix; the assumption
		// made after a failed assertion has to be replayed
		if t := v.term(); t != nil {
			if f, x := e.domForced(t); f {
				if !x && e.local == 0 {
					panic(pathEnd{kind: "pruned"})
				}
				return
			}
			en := e.prefix[len(e.log)]
			if en.kind == eChoice {
				e.nextEntry()
				if en.val == 1 {
					e.assume(t)
				}
				return
			}
			e.fail("replay mismatch (assert)")
		}
		if v.c == 0 && e.local == 0 {
			panic(pathEnd{kind: "pruned"})
		}
		return
	}
	e.nAssert++
	t := v.term()
	if t == nil {
		if v.c == 0 {
			e.onViolation(str(e, msg), e.model, e.curPos)
			if e.local == 0 {
				panic(pathEnd{kind: "violated"})
			}
			return
		}
		e.nTrivial++
		return
	}
	if f, x := e.domForced(t); f {
		e.nAssertQ++
		if x {
			e.audit(e.tt.not(t), 0)
		}
		if !x {
			e.onViolation(str(e, msg), e.model, e.curPos)
			if e.local == 0 {
				panic(pathEnd{kind: "violated"})
			}
		}
		return
	}
	e.nAssertQ++
	neg := e.tt.not(t)
	// the verdict is always asked to the solver
	r, m := e.sol.check(e.pc, e.vars, neg)
	if r == -1 {
		e.nUnknown++
		e.unk("solver gave no answer for an assertion")
		e.log = append(e.log, entry{kind: eChoice, val: 0})
		return
	}
	if r == 0 {
		e.log = append(e.log, entry{kind: eChoice, val: 0})
		return
	}
	e.onViolation(str(e, msg), m, e.curPos)
	if e.local > 0 {
		e.log = append(e.log, entry{kind: eChoice, val: 0})
		return
	}
	// continue on the inputs satisfying the assertion
	r, m = e.feasible(t)
	if r != 1 {
		panic(pathEnd{kind: "violated"})
	}
	e.model = m
	e.log = append(e.log, entry{kind: eChoice, val: 1})
	e.assume(t)
}

func compareBytes(e *Exec, fn *Fn, a []Val) Val {
	x, y := bytesOf(a[0]), bytesOf(a[1])
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	k := func(i int64) *Term { return e.tt.constant(64, uint64(i)) }
	acc := k(0)
	if len(x) < len(y) {
		acc = k(-1)
	} else if len(x) > len(y) {
		acc = k(1)
	}
	for i := n - 1; i >= 0; i-- {
		if x[i].p == nil && y[i].p == nil {
			if x[i].c < y[i].c {
				acc = k(-1)
			} else if x[i].c > y[i].c {
				acc = k(1)
			}
			continue
		}
		p, q := e.toTerm(x[i], 8), e.toTerm(y[i], 8)
		acc = e.tt.ite(e.tt.op2(OpUlt, p, q), k(-1), e.tt.ite(e.tt.op2(OpEq, p, q), acc, k(1)))
	}
	return fromTerm(acc)
}

func atomicAdd(w uint8) intrinsic {
	return func(e *Exec, fn *Fn, a []Val) Val {
		ti := e.pr.basic(types.Uint32)
		if w == 64 {
			ti = e.pr.basic(types.Uint64)
		}
		old := e.load(a[0], ti)
		nw := fromTerm(e.tt.op2(OpAdd, e.toTerm(old, w), e.toTerm(a[1], w)))
		e.store(a[0], nw, ti)
		return nw
	}
}

func sortSlice(e *Exec, x, less Val, algo string) {
	ifc := x.p.(*Iface)
	s, _ := ifc.v.p.(*SliceV)
	if s == nil {
		return
	}
	elem := e.pr.ti(ifc.ti.under.(*types.Slice).Elem())
	esz := elem.cells
	swap := &Closure{native: func(e *Exec, a []Val) Val {
		i, j := e.concInt(a[0]), e.concInt(a[1])
		for k := 0; k < esz; k++ {
			w := elem.w
			if elem.agg {
				w = elem.ws[k]
			}
			p, q := s.off+i*esz+k, s.off+j*esz+k
			u, v := s.o.cells[p], s.o.cells[q]
			e.setCell(s.o, p, v, w)
			e.setCell(s.o, q, u, w)
		}
		return Val{}
	}}
	pkg := e.pr.prog.ImportedPackage("sort")
	f := e.pr.fn(pkg.Func(algo))
	data := Val{p: Agg{less, {p: swap}}}
	if algo == "stable_func" {
		e.callFn(f, []Val{data, vInt64(int64(s.len))}, nil)
	} else {
		e.callFn(f, []Val{data, {}, vInt64(int64(s.len)), vInt64(int64(bits.Len(uint(s.len))))}, nil)
	}
}

// --- formatting

func ifaces(v Val) []Val { return sliceCells(v) }

type symMarks struct{ strs []Val }

func (e *Exec) sprintf(format string, args []Val) Val {
	var marks symMarks
	out := make([]any, len(args))
	verbs := formatVerbs(format, len(args))
	for i, a := range args {
		if ifc, _ := a.p.(*Iface); ifc != nil {
			// the methods are only used by some verbs
			out[i] = e.native(ifc.ti, ifc.v, &marks, verbs == nil || strings.IndexByte("vsqxX", verbs[i]) >= 0)
		}
	}
	return marks.splice(fmt.Sprintf(format, out...))
}

// the verb of each argument, nil if not simple
func formatVerbs(format string, n int) []byte {
	var out []byte
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) || format[i] == '*' || format[i] == '[' {
			return nil
		}
		if format[i] != '%' {
			out = append(out, format[i])
		}
	}
	if len(out) != n {
		return nil
	}
	return out
}

func (e *Exec) sprint(args []Val, ln bool) Val {
	var marks symMarks
	out := make([]any, len(args))
	for i, a := range args {
		out[i] = e.toNative(a, &marks)
	}
	if ln {
		return marks.splice(fmt.Sprintln(out...))
	}
	return marks.splice(fmt.Sprint(out...))
}

const markPrefix = "\x01\x02SYM"

func (m *symMarks) add(v Val) string {
	m.strs = append(m.strs, v)
	return fmt.Sprintf("%s%04d\x03", markPrefix, len(m.strs)-1)
}

func (m *symMarks) splice(s string) Val {
	if len(m.strs) == 0 {
		return vString(s)
	}
	acc := Val{}
	for {
		i := strings.Index(s, markPrefix)
		if i < 0 {
			return strConcat(acc, vString(s))
		}
		acc = strConcat(acc, vString(s[:i]))
		k, _ := strconv.Atoi(s[i+len(markPrefix) : i+len(markPrefix)+4])
		acc = strConcat(acc, m.strs[k])
		s = s[i+len(markPrefix)+5:]
	}
}

func (e *Exec) toNative(a Val, m *symMarks) any {
	ifc, _ := a.p.(*Iface)
	if ifc == nil {
		return nil
	}
	return e.native(ifc.ti, ifc.v, m, true)
}

func (e *Exec) findMethod(ti *TI, name string) *Fn {
	ms := types.NewMethodSet(ti.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		f := s.Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		if f.Name() == name && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
			return e.pr.method(ti, f.Pkg(), name)
		}
	}
	return nil
}

func (e *Exec) native(ti *TI, v Val, m *symMarks, methods bool) any {
	if methods && !ti.isIfc {
		for _, name := range []string{"Error", "String"} {
			if f := e.findMethod(ti, name); f != nil {
				r := e.callFn(f, []Val{v}, nil)
				var x string
				if _, ok := r.p.(*SymStr); ok {
					x = m.add(r)
				} else {
					x = str(e, r)
				}
				var raw any
				if ti.w != wNone || ti.isStr {
					raw = e.native(ti, v, m, false)
				}
				return fmtStringer{x, raw}
			}
		}
	}
	if ti.isIfc {
		i, _ := v.p.(*Iface)
		if i == nil {
			return nil
		}
		return e.native(i.ti, i.v, m, methods)
	}
	if ti.isStr {
		if _, ok := v.p.(*SymStr); ok {
			return m.add(v)
		}
		return str(e, v)
	}
	if ti.w != wNone {
		c := e.concretize(v)
		if ti.w == 0 {
			return c != 0
		}
		if ti.float {
			if ti.w == 32 {
				return math.Float32frombits(uint32(c))
			}
			return math.Float64frombits(c)
		}
		switch {
		case ti.signed && ti.w == 64:
			return int64(c)
		case ti.signed && ti.w == 32:
			return int32(c)
		case ti.signed && ti.w == 16:
			return int16(c)
		case ti.signed:
			return int8(c)
		case ti.w == 64:
			return c
		case ti.w == 32:
			return uint32(c)
		case ti.w == 16:
			return uint16(c)
		}
		return uint8(c)
	}
	if s, ok := ti.under.(*types.Slice); ok {
		et := e.pr.ti(s.Elem())
		cells := sliceCells(v)
		if et.w == 8 && !et.signed {
			b := make([]byte, len(cells))
			for i, c := range cells {
				b[i] = byte(e.concretize(c))
			}
			return b
		}
		out := make([]any, 0)
		for i := 0; i+et.cells <= len(cells) && et.cells > 0; i += et.cells {
			x := cells[i]
			if et.agg {
				x = Val{p: Agg(cells[i : i+et.cells])}
			}
			out = append(out, e.native(et, x, m, methods))
		}
		return out
	}
	if ti.agg {
		a, _ := v.p.(Agg)
		if a == nil {
			a = make(Agg, ti.cells)
		}
		out := make([]any, 0)
		n := len(ti.fields)
		if ti.elem != nil {
			n = ti.n
		}
		for i := 0; i < n; i++ {
			f, off := ti.elem, 0
			if f != nil {
				off = i * f.cells
			} else {
				f, off = ti.fields[i], ti.offs[i]
			}
			var x Val
			if f.agg {
				x = Val{p: a[off : off+f.cells]}
			} else {
				x = a[off]
			}
			out = append(out, e.native(f, x, m, methods && ti.elem != nil))
		}
		if ti.elem != nil {
			return out
		}
		return fmtStruct{out}
	}
	if v.p == nil {
		return nil
	}
	if p, ok := ti.under.(*types.Pointer); ok {
		et := e.pr.ti(p.Elem())
		if et.agg && m != nil {
			return fmtPtr{e.native(et, e.load(v, et), m, false)}
		}
		return "0xc000012345"
	}
	e.fail("formatting of %s", ti.t)
	return nil
}

type fmtStruct struct{ f []any }

func (s fmtStruct) Format(f fmt.State, verb rune) {
	f.Write([]byte("{"))
	for i, x := range s.f {
		if i > 0 {
			f.Write([]byte(" "))
		}
		fmt.Fprintf(f, fmt.FormatString(f, verb), x)
	}
	f.Write([]byte("}"))
}

type fmtPtr struct{ x any }

func (s fmtPtr) Format(f fmt.State, verb rune) {
	f.Write([]byte("&"))
	fmt.Fprintf(f, fmt.FormatString(f, verb), s.x)
}

type fmtStringer struct {
	s   string
	raw any
}

// the methods are called before formatting, since the panics of the
// interpreter can't cross the fmt package
func (s fmtStringer) Format(f fmt.State, verb rune) {
	switch verb {
	case 'v', 's', 'q', 'x', 'X':
		fmt.Fprintf(f, fmt.FormatString(f, verb), s.s)
	default:
		fmt.Fprintf(f, fmt.FormatString(f, verb), s.raw)
	}
}

func (e *Exec) writeTo(w Val, s Val) Val {
	ifc, _ := w.p.(*Iface)
	if ifc == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := e.pr.method(ifc.ti, nil, "Write")
	if f == nil {
		e.fail("no Write method on %s", ifc.ti.t)
	}
	b := strBytes(s)
	return e.callFn(f, []Val{ifc.v, e.newSlice(b, len(b), 1)}, nil)
}
