// Package zzsim is both sides of the simulator: this file is the protocol the
// supervisor and the simulated processes share; the rest (build tag zzsim) is
// the simulated kernel and scheduler that is linked into the code under test.
package zzsim

// Node is one entry of the simulated disk.
type Node struct {
	Path   string `json:"p"`
	Kind   string `json:"k,omitempty"` // "" file, "d" directory, "l" symbolic link
	Data   []byte `json:"d,omitempty"` // content or link target
	Mode   uint32 `json:"m,omitempty"` // permission bits, default 0644/0755
	Device uint64 `json:"dev,omitempty"`
}

// Mutation is something another party does to the disk.
type Mutation struct {
	Kind  string `json:"k"` // write, rm, mkdir, mv, link, chmod
	Path  string `json:"p"`
	Path2 string `json:"p2,omitempty"`
	Data  []byte `json:"d,omitempty"`
	Mode  uint32 `json:"m,omitempty"`
}

// Fault fires at the Nth operation (counted from 1) matching Op and Path.
type Fault struct {
	Nth    int       `json:"n"`
	Op     string    `json:"op,omitempty"`
	Path   string    `json:"p,omitempty"`
	Kind   string    `json:"k"` // an errno name, short, torn, flip, crash, crashafter, mut
	Arg    int64     `json:"a,omitempty"`
	Errno  string    `json:"e,omitempty"` // with torn
	Sticky bool      `json:"s,omitempty"`
	Mut    *Mutation `json:"mut,omitempty"`
}

// Step is one action of a task.
type Step struct {
	Kind   string    `json:"k"` // transpile, mut, fault-on, fault-off
	Main   string    `json:"main,omitempty"`
	Target string    `json:"t,omitempty"` // bash, batch
	Obj    int       `json:"o,omitempty"` // which transpiler object
	Mut    *Mutation `json:"mut,omitempty"`
}

// Switch hands the processor to Task when the step clock reaches At.
type Switch struct {
	At   int64 `json:"at"`
	Task int   `json:"t"`
}

// Scenario is one complete, explicit execution.
type Scenario struct {
	Seed     uint64            `json:"seed"` // map seeds, inode numbers, latencies
	Clock    int64             `json:"clock,omitempty"`
	Pid      int               `json:"pid,omitempty"`
	Cwd      string            `json:"cwd,omitempty"`
	Exe      string            `json:"exe,omitempty"`
	Env      map[string]string `json:"env,omitempty"`
	Unset    []string          `json:"unset,omitempty"` // values of variables that aren't in Env ("-": not set)
	Arg0     string            `json:"arg0,omitempty"`  // what the program was called as
	Disk     []Node            `json:"disk"`
	Faults   []Fault           `json:"faults,omitempty"`
	Tasks    [][]Step          `json:"tasks,omitempty"`
	Switches []Switch          `json:"switches,omitempty"`
	Budget   int64             `json:"budget,omitempty"`   // step clock limit per transpilation
	OpBudget int64             `json:"opbudget,omitempty"` // disk operation limit per transpilation
	Trace    bool              `json:"trace,omitempty"`
	Cover    bool              `json:"cover,omitempty"` // return the site coverage
	NoScript bool              `json:"noscript,omitempty"`
	LogPath  string            `json:"log,omitempty"`   // process mode: the event log (a real file)
	Space    int64             `json:"space,omitempty"` // free bytes on the disk; 0: no limit
}

// Result of one transpile step.
type Result struct {
	Task   int    `json:"task"`
	Step   int    `json:"step"`
	Script []byte `json:"script,omitempty"`
	Len    int    `json:"len"`
	Hash   string `json:"hash,omitempty"`
	IsErr  bool   `json:"iserr,omitempty"`
	Err    string `json:"err,omitempty"`
	Panic  string `json:"panic,omitempty"`
	Abort  string `json:"abort,omitempty"` // step or operation budget exceeded
	Ticks  int64  `json:"ticks"`
	Ops    int64  `json:"ops"`
}

// Outcome of a scenario.
type Outcome struct {
	Results  []Result       `json:"results,omitempty"`
	Fired    map[string]int `json:"fired,omitempty"` // fault kind -> times fired
	Ticks    int64          `json:"ticks"`
	Ops      int64          `json:"ops"`
	SimNanos int64          `json:"simns"`
	Switched int            `json:"switched,omitempty"`
	LogHash  string         `json:"loghash"`
	Log      []string       `json:"log,omitempty"`
	Cover    []uint32       `json:"cover,omitempty"`
	State    uint64         `json:"state"`             // hash of the visited (site, site) pairs
	Trouble  string         `json:"trouble,omitempty"` // the simulator itself could not go on
	Changed  []Node         `json:"changed,omitempty"` // disk entries that differ from the start
	OpTrace  []string       `json:"optrace,omitempty"`
}
