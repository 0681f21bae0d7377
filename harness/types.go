package main

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"

	"SIMROOT/simrt"
)

// S is a string that survives JSON even when it is not valid UTF-8.
type S string

// MarshalJSON writes invalid UTF-8 as {"b64":...}.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.ContainsRune(string(s), utf8.RuneError) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON reads either form.
func (s *S) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		d, err := base64.StdEncoding.DecodeString(m["b64"])
		*s = S(d)
		return err
	}
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	*s = S(t)
	return nil
}

// Val is a value for a write.
type Val struct {
	T string  `json:"t"` // string int int64 float float32 bool bytes nil bad
	S S       `json:"s,omitempty"`
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
	N int     `json:"n,omitempty"` // repeat S n times (large values)
}

// Step is one method call on a result.
type Step struct {
	M  string `json:"m"`
	P  S      `json:"p,omitempty"`
	Ps []S    `json:"ps,omitempty"`
	O  int    `json:"o,omitempty"`
	N  int    `json:"n,omitempty"`
}

// Op is one call a client makes.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	D  int    `json:"d,omitempty"`
	P  S      `json:"p,omitempty"`
	Ps []S    `json:"ps,omitempty"`
	V  *Val   `json:"v,omitempty"`
	Vs []Val  `json:"vs,omitempty"`
	O  int    `json:"o,omitempty"`
	N  S      `json:"n,omitempty"`
	M  int    `json:"m,omitempty"`
	R  int    `json:"r,omitempty"`
	C  []Step `json:"c,omitempty"`
	F  string `json:"f,omitempty"`
	X  int    `json:"x,omitempty"`
	Y  int    `json:"y,omitempty"`
}

// Mod describes a custom modifier, its meaning and its faults.
type Mod struct {
	Kind    string `json:"kind"`              // tag upper null wrap elems self retain
	Name    S      `json:"name,omitempty"`    // what Name() reports
	Script  []Op   `json:"script,omitempty"`  // calls made from inside Apply
	NameOps []Op   `json:"nameops,omitempty"` // calls made from inside Name
	Stall   int    `json:"stall,omitempty"`   // 1: before script, 2: after
	Crash   string `json:"crash,omitempty"`   // panic, goexit
	CrashAt int    `json:"crash_at,omitempty"`
	Var     int    `json:"var,omitempty"` // which result a build modifier makes
}

// Plan is everything that determines a run, except the schedule's coin flips.
type Plan struct {
	Prop    string         `json:"prop"`
	Seed    uint64         `json:"seed"`
	Mode    string         `json:"mode,omitempty"`
	Docs    []S            `json:"docs,omitempty"`
	Mods    []Mod          `json:"mods,omitempty"`
	Pre     []Op           `json:"pre,omitempty"`
	Shared  []Op           `json:"shared,omitempty"`
	Threads [][]Op         `json:"threads,omitempty"`
	Post    []Op           `json:"post,omitempty"`
	Sched   simrt.Sched    `json:"sched"`
	MapSeed uint64         `json:"map_seed,omitempty"`
	Pool    uint64         `json:"pool_seed,omitempty"`
	Seeds   []uint64       `json:"seeds,omitempty"`
	Ints    map[string]int `json:"ints,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Kind     string `json:"kind"`
	Detail   string `json:"detail"`
	Op       *Op    `json:"op,omitempty"`
	Expected string `json:"expected,omitempty"`
	Got      string `json:"got,omitempty"`
}

// Replay is a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Seed      uint64     `json:"run_seed"`
	RunIndex  int        `json:"run_index"`
	VerifSeed uint64     `json:"verif_seed"`
	Violation *Violation `json:"violation"`
	Plan      *Plan      `json:"plan"`
	Original  string     `json:"original_size"`
	Minimised string     `json:"minimised_size"`
	Trace     []string   `json:"schedule_trace,omitempty"`
	Note      string     `json:"note,omitempty"`
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}
