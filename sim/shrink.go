package main

import (
	"encoding/json"
	"time"
)

// Minimisation works on the JSON form of a scenario, so it is the same for every world: drop array elements
// (delta debugging, biggest chunks first), replace numbers by smaller ones, booleans by false, strings by "".
// Executors skip operations that a removal made meaningless, so every candidate is a legal scenario.

type shrinker struct {
	w        World
	prop     string
	kind     string
	deadline time.Time
	tries    int
	root     interface{}
}

func (s *shrinker) fails() bool {
	if time.Now().After(s.deadline) {
		return false
	}
	s.tries++
	data, err := json.Marshal(s.root)
	if err != nil {
		return false
	}
	return failsWith(s.w, data, s.prop, s.kind)
}

func failsWith(w World, data []byte, prop, kind string) (res bool) {
	defer func() {
		if recover() != nil {
			res = false // a scenario the harness cannot run is no reproduction
		}
	}()
	sc := w.New()
	if err := json.Unmarshal(data, sc); err != nil {
		return false
	}
	return runOne(w, sc, prop, false).Find(prop, kind) != nil
}

func shrink(w World, data []byte, prop, kind string, limit time.Duration) ([]byte, int) {
	s := &shrinker{w: w, prop: prop, kind: kind, deadline: time.Now().Add(limit)}
	if json.Unmarshal(data, &s.root) != nil {
		return data, 0
	}
	if !s.fails() {
		return data, s.tries
	}
	for round := 0; round < 6; round++ {
		before, _ := json.Marshal(s.root)
		s.pass(s.root, func(v interface{}) { s.root = v })
		after, _ := json.Marshal(s.root)
		if string(before) == string(after) || time.Now().After(s.deadline) {
			break
		}
	}
	out, _ := json.Marshal(s.root)
	return out, s.tries
}

// pass visits v and all values below it; set stores a replacement for v.
func (s *shrinker) pass(v interface{}, set func(interface{})) {
	switch x := v.(type) {
	case []interface{}:
		cur := x
		for n := len(cur); n >= 1; n /= 2 {
			for i := 0; i < len(cur); {
				j := minI(i+n, len(cur))
				cand := append(append([]interface{}{}, cur[:i]...), cur[j:]...)
				set(cand)
				if s.fails() {
					cur = cand
				} else {
					set(cur)
					i = j
				}
			}
		}
		set(cur)
		for i := range cur {
			i := i
			s.pass(cur[i], func(n interface{}) { cur[i] = n })
		}
	case map[string]interface{}:
		for _, k := range sortedMapKeys(x) {
			k := k
			s.pass(x[k], func(n interface{}) { x[k] = n })
		}
	case float64:
		if x == 0 {
			return
		}
		for _, c := range []float64{0, 1, float64(int64(x) / 16), float64(int64(x) / 2), float64(int64(x*3) / 4), x - 1} {
			if c == x || (x > 0 && c > x) || (x < 0 && c < x) {
				continue
			}
			set(c)
			if s.fails() {
				if c > 1 {
					s.pass(c, set)
				}
				return
			}
			set(x)
		}
	case bool:
		if x {
			set(false)
			if !s.fails() {
				set(true)
			}
		}
	case string:
	}
}

func sortedMapKeys(m map[string]interface{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}
