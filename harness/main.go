// Command verif decides the properties in /verif/properties.jsonl by generated-input search.
//
//	verif run -prop P05 [-tier quick|thorough] [-seed N] [-cases N]
//	verif replay FILE
//	verif gen -prop P05 -seed N -n I     prints one generated case
//	verif worker, verif convert          (internal)
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"

	log "github.com/sirupsen/logrus"

	"verif/engine"
	"verif/props"
)

func main() {
	log.SetLevel(log.PanicLevel)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif run|replay|gen|list|worker")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("verif", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", env("VERIF_TIER", "quick"), "tier")
	seed := fs.String("seed", env("VERIF_SEED", "1"), "seed")
	cases := fs.Int("cases", 0, "number of cases")
	keep := fs.Bool("keep", false, "do not stop at the first failure")
	max := fs.Int("max", 5, "failures to report with -keep")
	n := fs.Int("n", 0, "index of the case")
	race := fs.String("racebin", "", "binary built with the race detector")
	verif := fs.String("verif", "/verif", "the /verif directory")
	_ = fs.Parse(os.Args[2:])
	s, err := strconv.ParseInt(*seed, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad seed:", *seed)
		os.Exit(2)
	}
	o := engine.Options{Verif: *verif, Tier: *tier, Seed: uint64(s), Cases: *cases, KeepOn: *keep, Max: *max, RaceBin: *race}
	switch os.Args[1] {
	case "worker":
		engine.Worker()
	case "convert":
		props.Alone()
	case "run":
		os.Exit(engine.Run(*prop, o))
	case "replay":
		os.Exit(engine.Replay(fs.Arg(0), o))
	case "list":
		for _, id := range engine.IDs() {
			fmt.Println(id)
		}
	case "gen":
		c := engine.Get(*prop).Gen(engine.NewT(uint64(s), uint64(*n)))
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.SetIndent("", "  ")
		_ = e.Encode(c)
		fmt.Println("--------\n" + c.Doc)
		if c.Want != "" {
			fmt.Println("-------- want\n" + c.Want)
		}
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
