package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "result file")
	progress := flag.String("progress", "", "progress file")
	known := flag.String("known", "", "JSON file: {signature: description}")
	phase := flag.String("phase", "", "replay: only this phase")
	index := flag.Int("index", -1, "replay: only this case")
	shard := flag.String("shard", "0/1", "run the cases of one shard, i/n")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()

	if *list {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}

	var sh, shn int
	if _, err := fmt.Sscanf(*shard, "%d/%d", &sh, &shn); err != nil || shn < 1 {
		fmt.Fprintln(os.Stderr, "bad -shard")
		os.Exit(3)
	}

	ck, ok := checks[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no such check: %s\n", *prop)
		os.Exit(3)
	}
	c := &Ctx{
		Prop: *prop, Tier: *tier, Seed: *seed, Quick: *tier != "thorough",
		replayPhase: *phase, replayIndex: *index, shard: sh, shards: shn,
		distinct: map[uint64]struct{}{}, counts: map[string]int{},
		sets: map[string]map[uint64]struct{}{}, findings: map[string]string{},
		known: map[string]string{},
	}
	if *known != "" {
		b, err := os.ReadFile(*known)
		if err == nil {
			err = json.Unmarshal(b, &c.known)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if *progress != "" {
		f, err := os.Create(*progress)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.progress = f
	}
	ck.Run(c)
	r := c.result(ck.Rule)
	if *out != "" {
		writeJSON(*out, r)
		writeHashes(*out+".distinct", c.distinct)
		for k, m := range c.sets {
			writeHashes(*out+".set."+k, m)
		}
	} else {
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	}
	if len(c.violations) > 0 {
		for _, v := range c.violations {
			fmt.Fprintf(os.Stderr, "--- %s %s/%d: %s\n", c.Prop, v.Phase, v.Index, v.Message)
		}
		os.Exit(10)
	}
}
