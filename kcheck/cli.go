package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"
)

var verifDir string

var checks = map[string]func(p *Prog, rep *Report, verif string){}

func main() {
	prop := flag.String("prop", "", "property to check")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "")
	gen := flag.Bool("genspec", false, "write the layout the tree implements to spec/messages.json")
	dump := flag.String("dump", "", "dump the outcomes of a function")
	flag.Parse()
	verifDir = *verif
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	start := time.Now()
	if *gen || *dump != "" {
		p, err := loadProg(*repo)
		if err == nil && *gen {
			err = genSpec(p, *verif)
		}
		if err == nil && *dump == "ring" {
			dumpRing(p)
			return
		}
		if err == nil && *dump == "client" {
			dumpLookups(p)
			return
		}
		if err == nil && *dump == "conn" {
			dumpConn(p)
			return
		}
		if err == nil && *dump != "" {
			err = dumpFn(p, *dump)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	if *prop == "all" {
		code := 0
		p, err := loadProg(*repo)
		for _, k := range sortedKeys(checks) {
			if c := runCheck(k, p, err, *verif, *repo, tier, time.Now()); c > code {
				code = c
			}
		}
		os.Exit(code)
	}
	if checks[*prop] == nil {
		fmt.Println("no such property", *prop)
		os.Exit(2)
	}
	p, err := loadProg(*repo)
	os.Exit(runCheck(*prop, p, err, *verif, *repo, tier, start))
}

func runCheck(prop string, p *Prog, err error, verif, repo, tier string, start time.Time) int {
	rep := newReport(prop)
	if err != nil {
		rep.bad("load", "", "the tree cannot be analysed: %v", err)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					rep.bad("internal", "", "the analysis cannot decide this tree: %v", e)
					if os.Getenv("KDEBUG") != "" {
						debug.PrintStack()
					}
				}
			}()
			checks[prop](p, rep, verif)
		}()
	}
	return rep.finish(verif, filepath.Clean(repo), tier, start)
}

func dumpFn(p *Prog, name string) error {
	fn := p.funcs[name]
	if fn == nil {
		for _, n := range sortedKeys(p.funcs) {
			fmt.Println(n)
		}
		return nil
	}
	x := newX(p)
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, namedSym(q.Name(), q.Type()))
	}
	outs := x.Run(fn, args, nil, State{facts: rootFacts}, nil, 0)
	dumpOuts(os.Stdout, p, outs)
	fmt.Println("undecided:", x.undecided, "fm", fmCount, "steps", x.steps)
	return nil
}

func codecC01(p *Prog, rep *Report, verif string) {
	newCodecRun(p, rep, verif).sizes()
	rep.rule("every Put primitive writes exactly the number of bytes of its kind")
	encoderPrims(p, rep, "size-prim", true, false)
}

func init() {
	checks["C02"] = func(p *Prog, rep *Report, verif string) {
		newCodecRun(p, rep, verif).roundTrip()
		encoderPrims(p, rep, "roundtrip-put", false, false)
		decoderPrims(p, rep, "roundtrip-get", "value")
	}
	checks["C03"] = func(p *Prog, rep *Report, verif string) {
		newCodecRun(p, rep, verif).layout()
		encoderPrims(p, rep, "layout-put", false, false)
		decoderPrims(p, rep, "layout-get", "layout")
	}
	checks["C05"] = func(p *Prog, rep *Report, verif string) {
		newCodecRun(p, rep, verif).errors()
		decoderPrims(p, rep, "error-get", "error")
	}
	checks["C04"] = decoderSafe
	checks["C08"] = func(p *Prog, rep *Report, verif string) { noAlias(p, rep) }
	checks["C06"] = func(p *Prog, rep *Report, verif string) { encoderSticky(p, rep) }
	checks["C07"] = func(p *Prog, rep *Report, verif string) { encoderPrims(p, rep, "prefix", false, true) }
}
