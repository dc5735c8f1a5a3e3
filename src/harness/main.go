package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"
)

func mixSeed(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	return x
}

func propSalt(id string) uint64 {
	x := uint64(1469598103934665603)
	for i := 0; i < len(id); i++ {
		x = (x ^ uint64(id[i])) * 1099511628211
	}
	return x
}

func genFor(pr *Prop, base uint64, i int) (*Program, uint64) {
	seed := mixSeed(base^propSalt(pr.ID), uint64(i))
	prof := pr.Prof[i%len(pr.Prof)]
	kind := pr.Kind
	if prof.Kind != "" {
		kind = prof.Kind
	}
	if kind == "rtree" {
		return generateRT(prof, seed), seed
	}
	if kind == "watcher" {
		return generateWT(prof, seed), seed
	}
	return Generate(prof, seed), seed
}

func main() {
	mode := "explore"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	prop := fs.String("prop", "C02", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1000, "")
	from := fs.Int("from", 0, "")
	idx := fs.Int("i", 0, "")
	to := fs.Int("to", 0, "")
	stride := fs.Int("stride", 1, "")
	out := fs.String("out", "", "")
	sig := fs.String("sig", "", "")
	limit := fs.Int("limit", 600, "seconds")
	quiet := fs.Bool("q", false, "")
	fs.Parse(os.Args[2:])
	pr := Props[*prop]
	switch mode {
	case "check":
		os.Exit(checkMain(pr))
	case "work":
		workMain(pr, *seed, *from, *to, *stride, *out, *limit)
	case "min":
		os.Exit(minMain(pr, *seed, *idx, *sig, *out, *limit))
	case "replay":
		os.Exit(replayMain(fs.Args(), *quiet))
	case "explore":
		type agg struct {
			n     int
			first int
			ops   int
			msg   string
		}
		m := map[string]*agg{}
		t0 := time.Now()
		obs, dels := 0, 0
		for i := *from; i < *from+*n; i++ {
			p, sd := genFor(pr, *seed, i)
			h := Run(p, RunOpts{Seed: sd})
			vs, st := pr.evaluate(h)
			obs += st.Obligations
			dels += len(h.Dels)
			seen := map[string]bool{}
			for _, v := range vs {
				k := v.Cat + "/" + v.Sig
				if seen[k] {
					continue
				}
				seen[k] = true
				a := m[k]
				if a == nil {
					a = &agg{first: i, ops: 1 << 30}
					m[k] = a
				}
				a.n++
				if h.Ops < a.ops {
					a.ops, a.first, a.msg = h.Ops, i, v.Msg
				}
			}
			h.S.Close()
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Printf("%s: %d runs in %v, %d obligations, %d deliveries\n", *prop, *n, time.Since(t0), obs, dels)
		for _, k := range ks {
			fmt.Printf("  %-40s %6d  (smallest: -i %d, %d ops) %s\n", k, m[k].n, m[k].first, m[k].ops, m[k].msg)
		}
	case "show":
		p, sd := genFor(pr, *seed, *idx)
		h := Run(p, RunOpts{Seed: sd, Log: true})
		b, _ := json.MarshalIndent(p, "", " ")
		_ = b
		fmt.Println(string(mustJSON(p)))
		for _, l := range h.Log {
			fmt.Println(l)
		}
		vs, _ := pr.evaluate(h)
		for _, v := range vs {
			fmt.Println("VIOL", v)
		}
		h.S.Close()
	}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
