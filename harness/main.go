// Command vharness runs the monitored workloads of one property (see /verif/DESIGN.md).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.String("shard", "0/1", "i/n")
	out := flag.String("out", "", "result file")
	cur := flag.String("current", "", "file that names the current case")
	one := flag.String("case", "", "run a single case, part:index")
	onlyPart := flag.String("part", "", "run a single part")
	scale := flag.Float64("scale", 1, "factor for the number of cases")
	list := flag.Bool("list", false, "describe the properties as JSON")
	child := flag.String("child", "", "internal: run as a helper process")
	testing.Init()
	flag.Parse()

	if *child != "" {
		runChild(*child, flag.Args())
		return
	}
	if *list {
		type d struct {
			Rule  string
			Least map[string]int64
			Parts []string
		}
		m := map[string]d{}
		for id, p := range props {
			x := d{Rule: p.Rule, Least: p.Least}
			for _, q := range p.Parts {
				x.Parts = append(x.Parts, fmt.Sprintf("%s:%d/%d", q.Name, q.Quick, q.Thorough))
			}
			m[id] = x
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fmt.Println(string(b))
		return
	}
	p := props[*prop]
	if p == nil {
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "unknown property; have", ids)
		os.Exit(3)
	}
	debug.SetTraceback("all")
	if *cur != "" {
		f, err := os.OpenFile(*cur, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		currentFile = f
	}
	go watchdog(*out)
	thoro := *tier == "thorough"
	var si, sn int
	fmt.Sscanf(*shard, "%d/%d", &si, &sn)

	if *one != "" {
		i := strings.LastIndex(*one, ":")
		idx, _ := strconv.Atoi((*one)[i+1:])
		runOne := func() {
			for _, part := range p.Parts {
				if part.Name == (*one)[:i] {
					// the order in which maps are walked is not reproducible: repeat
					for k := 0; k < 20 && len(stats.Violations) == 0; k++ {
						runCase(p, part, idx, *seed, thoro)
					}
				}
			}
			finish(*out)
		}
		if p.Bubble {
			withBubbles(runOne)
		}
		runOne()
	}
	if p.Bubble {
		withBubbles(func() { runAll(p, *onlyPart, thoro, *scale, si, sn, *seed, *out) })
	}
	runAll(p, *onlyPart, thoro, *scale, si, sn, *seed, *out)
}

func runAll(p *Prop, onlyPart string, thoro bool, scale float64, si, sn int, seed int64, out string) {
	k := 0
	for _, part := range p.Parts {
		if onlyPart != "" && part.Name != onlyPart {
			continue
		}
		n := part.Quick
		if thoro {
			n = part.Thorough
		}
		n = int(float64(n) * scale)
		for i := 0; i < n; i++ {
			k++
			if k%sn != si {
				continue
			}
			runCase(p, part, i, seed, thoro)
			if len(stats.Violations) >= 3 {
				flush(out)
				os.Exit(1)
			}
		}
	}
	finish(out)
}

func finish(out string) {
	flush(out)
	if len(stats.Violations) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// children are helper processes a case may start (see runChild's users).
var children = map[string]func(args []string){}

func runChild(name string, args []string) {
	f := children[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown child", name)
		os.Exit(3)
	}
	f(args)
}
