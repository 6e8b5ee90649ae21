package main

import (
	"fmt"
	"os"
	"strings"
)

func newSpec(w *World) *Spec {
	return &Spec{w: w, e: w.e, made: map[*Root][]*Made{}, isLost: map[*Root]bool{}, folT: map[Role]bool{}, folS: map[Role]bool{}}
}

func (s *Spec) all() {
	s.try("failures", s.failures)
	s.try("stops", s.stops)
	s.try("progress", s.progress)
	s.try("issues", s.issues)
	s.try("additive", s.additive)
	s.try("readOnly", s.readOnly)
	s.try("memoryless", s.memoryless)
	s.try("layout", s.layout)
	for c := 2; c <= 4; c++ {
		c := c
		s.try(layers[c]+" provide", func() { s.provide(c) })
		s.try(layers[c]+" extract", func() { s.extract(c) })
	}
	s.try("details", s.details)
	s.try("stories", s.stories)
	s.try("spurious", s.spurious)
	s.try("chains", s.chains)
	s.try("answers", s.answers)
	s.try("classes", s.classes)
	s.try("bits", s.bits)
	s.try("singles", s.singles)
	s.try("publication", s.publication)
}

// everything also looks at what is remembered.
func (s *Spec) everything() {
	s.all()
	s.try("memory", s.later)
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// try applies a group of rules; a group the analyser gives up on decides
// nothing.
func (s *Spec) try(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("SA_PANIC") != "" {
				panic(x)
			}
			why := fmt.Sprint(x)
			if _, ok := x.(timeUp); ok {
				why = "time is up"
			}
			s.w.bad = append(s.w.bad, "rules "+what+" not applied: "+why)
		}
	}()
	f()
}
