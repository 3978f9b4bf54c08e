package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness COMMAND ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	out := fs.String("out", "", "trace file")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	names := fs.String("names", "", "")
	cached := fs.Bool("cached", false, "")
	programs := fs.String("programs", "", "")
	input := fs.String("in", "", "")
	world := fs.String("world", "", "")
	length := fs.Int("len", 2, "")
	limit := fs.Int("limit", 0, "")
	mode := fs.String("mode", "", "")
	prof := fs.String("profile", "C01", "")
	fs.StringVar(&corpusDir, "corpus", "/verif/corpus", "")
	fatal(fs.Parse(os.Args[2:]))
	loadCorpus()
	f, err := os.Create(*out)
	fatal(err)
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	switch cmd {
	case "sessions":
		makeSessions(*prof, *seed, *n, func(s *Session) { fatal(enc.Encode(s)) })
	case "worlds":
		worlds(*world, *mode, *length, *n, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "redefinitions":
		redefinitions(*world, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "structures":
		structures(*world, *mode, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "utilities":
		utilities(*world, *n, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "tailwind":
		corpus(*input, *world, *mode, *n, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "spellings":
		spellings(*input, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "atrules":
		atRules(*world, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "varnames":
		varNames(*world, *n, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "alltexts":
		allTexts(*world, *limit > 0, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "idents":
		idents(*input, *world, *length, *limit, *cached, *seed, func(e *IdentRecord) { fatal(enc.Encode(e)) })
	case "readers":
		readers(*input, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "faults":
		faults(*input, *limit, *seed, func(s *Session) { fatal(enc.Encode(s)) })
	case "calls":
		calls(*input, *n, *seed, *cached, func(s *Session) { fatal(enc.Encode(s)) })
	case "tokens":
		tokens(*world, *input, *n, *limit, *seed, func(e *TokenRecord) { fatal(enc.Encode(e)) })
	case "schedules":
		writeSheets(*names)
		schedules(*programs, *input, *n, *seed, func(h *History) { fatal(enc.Encode(h)) })
	case "random-schedules":
		writeSheets(*names)
		randomSchedules(*n, *seed, func(h *History) { fatal(enc.Encode(h)) })
	case "stress":
		writeSheets(*names)
		stress(*n, *seed, func(h *History) { fatal(enc.Encode(h)) })
	case "cache-stress":
		cacheStress(*n, *seed, func(h *History) { fatal(enc.Encode(h)) })
	case "selectors":
		if *world != "" {
			selectorWorld(*world, *seed, func(r any) { fatal(enc.Encode(r)) })
		} else {
			selectors(*n, *seed, func(r any) { fatal(enc.Encode(r)) })
		}
	case "covers":
		covers(*seed, *n, *names, func(e any) { fatal(enc.Encode(e)) })
	default:
		fatal(fmt.Errorf("no command %q", cmd))
	}
	fatal(w.Flush())
	fatal(f.Close())
}
