// Package main is placed next to the repository's packages by an overlay. The
// vx* primitives are intercepted by the symbolic engine; compiled natively they
// read the values of a solver model, so that every model can be run against the
// real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

var vxRegistry = map[string]func(){}

var (
	vxVars  map[string]string
	vxNames map[string]int
	vxFails []string
	vxTrail []string
	vxKnowns []string
	vxTierN int
	vxFiles []*os.File
)

type vxAssumeFailed struct{}

func vxName(name string) string {
	n := vxNames[name]
	vxNames[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func vxLookup(name string) (uint64, bool) {
	s, ok := vxVars[vxName(name)]
	if !ok {
		return 0, false
	}
	if strings.HasPrefix(s, "f") {
		u, err := strconv.ParseUint(s[1:], 16, 64)
		if err != nil {
			panic(err)
		}
		return u, true
	}
	u, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return u, true
}

// vxByte is any byte of the alphabet.
func vxByte(name, alphabet string) byte {
	u, ok := vxLookup(name)
	if !ok {
		return alphabet[0]
	}
	return byte(u)
}

func vxBool(name string) bool {
	u, _ := vxLookup(name)
	return u == 1
}

func vxInt64(name string) int64 {
	u, _ := vxLookup(name)
	return int64(u)
}

func vxInt32(name string) int32 {
	u, _ := vxLookup(name)
	return int32(uint32(u))
}

func vxFloat64(name string) float64 {
	u, _ := vxLookup(name)
	return math.Float64frombits(u)
}

// vxChoose is any number below n; the engine explores each value separately.
func vxChoose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	u, _ := vxLookup(name)
	return int(u)
}

func vxAssume(c bool) {
	if !c {
		panic(vxAssumeFailed{})
	}
}

func vxAssert(c bool, label string) {
	if !c {
		vxFails = append(vxFails, label)
	}
}

// vxKnown marks the region of a known finding.
func vxKnown(id string, c bool) {
	if c {
		vxKnowns = append(vxKnowns, id)
	}
}

func vxCover(label string) {}

func vxObs(label string, v interface{}) {
	s := ""
	switch v := v.(type) {
	case nil:
		s = "nil"
	case bool:
		s = strconv.FormatBool(v)
	case int:
		s = strconv.Itoa(v)
	case int64:
		s = strconv.FormatInt(v, 10)
	case int32:
		s = strconv.FormatInt(int64(v), 10)
	case float64:
		s = fmt.Sprintf("f%x", math.Float64bits(v))
	case string:
		s = fmt.Sprintf("%q", v)
	case []byte:
		s = fmt.Sprintf("%q", string(v))
	default:
		s = fmt.Sprintf("%T", v)
	}
	vxTrail = append(vxTrail, label+"="+s)
}

// vxMapOrder makes iteration order over maps a symbolic choice in repository code.
// Modes: 0 off, 1 insertion order or its reverse for each map, 2 any order of up to
// 4 entries, 3 insertion order or its reverse for all maps alike.
func vxMapOrder(mode int) {}

// vxFile is the name of a file with the given content.
func vxFile(content string) string {
	f, err := os.CreateTemp("", "vx")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name()) // reachable by its descriptor alone
	f.WriteString(content)
	vxFiles = append(vxFiles, f)
	return fmt.Sprintf("/proc/self/fd/%d", f.Fd())
}

// vxTier is 0 in the quick tier and 1 in the thorough tier.
func vxTier() int { return vxTierN }

func vxAnd(a, b bool) bool { return a && b }
func vxOr(a, b bool) bool  { return a || b }
func vxIff(a, b bool) bool { return a == b }

// vxContains is strings.Contains as one formula.
func vxContains(s, sub string) bool { return strings.Contains(s, sub) }

// vxStr is any string over the alphabet with a length in [min,max].
func vxStr(name string, min, max int, alphabet string) string {
	n := min + vxChoose(name+".len", max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = vxByte(name, alphabet)
	}
	return string(b)
}

// vxInt is any integer in [lo,hi].
func vxInt(name string, lo, hi int64) int64 {
	x := vxInt64(name)
	vxAssume(vxAnd(x >= lo, x <= hi))
	return x
}

// vxPick is one of the strings.
func vxPick(name string, xs ...string) string { return xs[vxChoose(name, len(xs))] }

func vxErr(err error) bool { return err != nil }

func main() {
	log.SetOutput(io.Discard)
	out := os.NewFile(3, "results")
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req struct {
			H    string            `json:"h"`
			Vars map[string]string `json:"vars"`
			N    int               `json:"n"`
			Tier int               `json:"tier"`
		}
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintf(out, "{\"err\":%q}\n", err.Error())
			continue
		}
		vxTierN = req.Tier
		res := map[string]interface{}{}
		for k := 0; k < req.N || k == 0; k++ {
			vxVars, vxNames, vxFails, vxTrail, vxKnowns = req.Vars, map[string]int{}, nil, nil, nil
			res = map[string]interface{}{}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(vxAssumeFailed); ok {
							res["assume"] = true
							return
						}
						st := strings.Split(string(debug.Stack()), "\n")
						where := ""
						for i, l := range st {
							if strings.Contains(l, "MAPL_engine.") && i+1 < len(st) {
								where = strings.TrimSpace(l) + " " + strings.TrimSpace(st[i+1])
								break
							}
						}
						res["panic"] = fmt.Sprint(r) + " at " + where
					}
				}()
				f := vxRegistry[req.H]
				if f == nil {
					res["err"] = "no such harness"
					return
				}
				f()
			}()
			for _, f := range vxFiles {
				f.Close()
			}
			vxFiles = nil
			res["fails"] = vxFails
			res["obs"] = vxTrail
			res["known"] = vxKnowns
			if len(vxFails) > 0 || res["panic"] != nil {
				break
			}
		}
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
	}
}
