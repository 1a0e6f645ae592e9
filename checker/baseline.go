package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rules find the functions they judge by name. A function that was renamed, or turned from a method into a
// function, is found again by its signature and content: baseline.json lists those of the functions the rules were
// written for (regenerate it with -baseline).

//go:embed baseline.json
var baselineJSON []byte

type fnPrint struct {
	Sig   string         `json:"sig"`
	Feats map[string]int `json:"feats"`
}

func (p *Prog) fnKey(f *ssa.Function) string {
	rel := strings.TrimPrefix(strings.TrimPrefix(fnPkg(f), modPath), "/")
	name := f.Name()
	if r := f.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			name = n.Obj().Name() + "." + name
		}
	}
	return rel + ":" + name
}

func printOf(f *ssa.Function) fnPrint {
	var ps []string
	if r := f.Signature.Recv(); r != nil {
		ps = append(ps, types.TypeString(r.Type(), nil))
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		ps = append(ps, types.TypeString(f.Signature.Params().At(i).Type(), nil))
	}
	var rs []string
	for i := 0; i < f.Signature.Results().Len(); i++ {
		rs = append(rs, types.TypeString(f.Signature.Results().At(i).Type(), nil))
	}
	fp := fnPrint{Sig: strings.Join(ps, ",") + "->" + strings.Join(rs, ","), Feats: map[string]int{}}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.DebugRef:
					continue
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil {
						if strings.HasPrefix(fnPkg(c), modPath) && c.Object() != nil && !c.Object().Exported() {
							fp.Feats["call own"]++
						} else {
							fp.Feats["call "+c.Name()]++
						}
					} else if x.Common().IsInvoke() {
						fp.Feats["invoke "+x.Common().Method.Name()]++
					}
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
						fp.Feats["const "+c.Value.ExactString()]++
					}
				}
				fp.Feats[fmt.Sprintf("%T", in)]++
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	return fp
}

func (p *Prog) writeBaseline() []byte {
	all := map[string]fnPrint{}
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" {
			all[p.fnKey(f)] = printOf(f)
		}
	}
	d, _ := json.MarshalIndent(all, "", " ")
	return append(d, '\n')
}

// renamed finds the function that took the place of a function of the baseline.
func (p *Prog) renamed(rel, name string) *ssa.Function {
	if p.baseline == nil {
		if json.Unmarshal(baselineJSON, &p.baseline) != nil {
			return nil
		}
	}
	was, ok := p.baseline[rel+":"+name]
	if !ok {
		return nil
	}
	type cand struct {
		f     *ssa.Function
		score float64
	}
	var cands []cand
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if k := p.fnKey(f); !strings.HasPrefix(k, rel+":") {
			continue
		} else if _, known := p.baseline[k]; known {
			continue
		}
		fp := printOf(f)
		if fp.Sig != was.Sig {
			continue
		}
		same, total := 0, 0
		for k, n := range was.Feats {
			m := fp.Feats[k]
			same += min(n, m)
			total += max(n, m)
		}
		for k, m := range fp.Feats {
			if was.Feats[k] == 0 {
				total += m
			}
		}
		cands = append(cands, cand{f, float64(same) / float64(total+1)})
	}
	if len(cands) == 0 {
		return nil
	}
	sort.Slice(cands, func(i, j int) bool {
		if cands[i].score != cands[j].score {
			return cands[i].score > cands[j].score
		}
		return cands[i].f.Name() < cands[j].f.Name()
	})
	if len(cands) > 1 && cands[0].score == cands[1].score {
		return nil
	}
	return cands[0].f
}

// inBaseline tells that a function (or the one a closure belongs to) is one the rules were written for, under any name.
func (p *Prog) inBaseline(f *ssa.Function) bool {
	if p.known == nil {
		p.known = map[*ssa.Function]bool{}
		have := map[string]bool{}
		for _, g := range p.Funcs {
			if g.Parent() == nil {
				have[p.fnKey(g)] = true
			}
		}
		p.renamed("", "") // loads the baseline
		for _, g := range p.Funcs {
			if _, ok := p.baseline[p.fnKey(g)]; ok && g.Parent() == nil {
				p.known[g] = true
			}
		}
		for k := range p.baseline {
			if !have[k] {
				i := strings.Index(k, ":")
				if g := p.renamed(k[:i], k[i+1:]); g != nil {
					p.known[g] = true
				}
			}
		}
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	return p.known[f] || !inModule(fnPkg(f))
}
