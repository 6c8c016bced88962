package main

import (
	"encoding/json"
	"runtime"
)

// Op is one step of an actor's script.
type Op struct {
	A  string `json:"a"`           // actor: "c0".. clients, "s0".. server application goroutines, "h0".. hostile peers
	At int    `json:"at"`          // not before this time, in simulated microseconds
	K  string `json:"k"`           // kind
	C  int    `json:"c,omitempty"` // client index
	N  []int  `json:"n,omitempty"` // numeric arguments
	S  string `json:"s,omitempty"` // string argument
	B  []byte `json:"b,omitempty"` // raw bytes
}

func (o *Op) n(i int) int {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

// ConnFault is a fault at a byte offset of one direction of the nth connection with a label.
type ConnFault struct {
	Label string `json:"label"`
	Nth   int    `json:"nth"`
	Down  bool   `json:"down,omitempty"`
	Off   int64  `json:"off"`
	Kind  string `json:"kind"`
	DurUs int    `json:"dur_us,omitempty"`
}

// ClientPlan configures one simulated client.
type ClientPlan struct {
	Mode int        `json:"mode"` // 0 websocket, 1 polling binary, 2 polling base64, 3 polling JSONP
	Ping int        `json:"ping"` // ping period in percent of the announced interval; 0: no pings
	Prof netProfile `json:"prof"`
	Frag int        `json:"frag,omitempty"` // client splits websocket messages into frames this small
	Skip bool       `json:"skip,omitempty"` // removed by the shrinker
}

// Plan describes one run completely, together with Sched.
type Plan struct {
	Prop     string         `json:"prop"`
	Kind     string         `json:"kind"`
	Seed     uint64         `json:"seed"`
	NetSeed  uint64         `json:"net_seed"`
	Interval int            `json:"interval_ms"`
	Timeout  int            `json:"timeout_ms"`
	Cfg      map[string]int `json:"cfg,omitempty"`
	Clients  []ClientPlan   `json:"clients"`
	Ops      []Op           `json:"ops"`
	Faults   []ConnFault    `json:"faults,omitempty"`
	Settle   int            `json:"settle_ms"`
	Sched    SchedPlan      `json:"sched"`
}

func (p *Plan) cfg(k string) int { return p.Cfg[k] }
func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// SchedPlan is either a seeded scheduling strategy or an explicit list of decisions.
type SchedPlan struct {
	Seed     uint64     `json:"seed"`
	Replay   bool       `json:"replay"`
	Trace    []traceDec `json:"trace,omitempty"`
	Strategy int        `json:"strategy"`
	Preempt  uint32     `json:"preempt_den,omitempty"`
	Stall    uint32     `json:"stall_den,omitempty"`
	StallMax uint32     `json:"stall_max_log,omitempty"`
	MaxStall uint32     `json:"max_stalls,omitempty"`
	Pick     uint32     `json:"pick_den,omitempty"`
	Sel      uint32     `json:"sel_den,omitempty"`
	Focus    []uint32   `json:"focus,omitempty"`
	FocusDen uint32     `json:"focus_den,omitempty"`
	FocusSt  uint32     `json:"focus_stall,omitempty"`
	Depth    uint32     `json:"pct_depth,omitempty"`
	Span     uint32     `json:"pct_span,omitempty"`
	SpinCap  uint64     `json:"spin_cap"`
	StepCap  uint64     `json:"step_cap"`
}

// traceDec is kind, index, argument, site of a decision.
type traceDec [4]int64

func (s *SchedPlan) config() *runtime.SimConfig {
	c := &runtime.SimConfig{
		Seed: s.Seed, Replay: s.Replay, Strategy: s.Strategy, PreemptDen: s.Preempt,
		StallDen: s.Stall, StallMaxLog: s.StallMax, MaxStalls: s.MaxStall, PickDen: s.Pick, SelDen: s.Sel,
		FocusDen: s.FocusDen, FocusStall: s.FocusSt, PCTDepth: s.Depth, PCTSpan: s.Span,
		SpinCap: s.SpinCap, StepCap: s.StepCap,
	}
	for i, f := range s.Focus {
		if i < len(c.Focus) {
			c.Focus[i] = f
			c.NFocus = i + 1
		}
	}
	for _, d := range s.Trace {
		c.Script = append(c.Script, runtime.SimDecision{Kind: uint32(d[0]), Idx: uint64(d[1]), Arg: d[2], Site: uint32(d[3])})
	}
	return c
}

func traceOf(ds []runtime.SimDecision) []traceDec {
	out := make([]traceDec, len(ds))
	for i, d := range ds {
		out[i] = traceDec{int64(d.Kind), int64(d.Idx), d.Arg, int64(d.Site)}
	}
	return out
}
