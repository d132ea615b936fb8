package verifsimrt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"sort"
	"strings"
)

// Config describes one simulated execution completely.
type Config struct {
	Args      []string          `json:"args"`
	Env       map[string]string `json:"env,omitempty"`
	CPUs      int               `json:"cpus"`
	Seed      uint64            `json:"seed"`
	Policy    string            `json:"policy,omitempty"`  // "" = drawn from the seed
	Preempt   int64             `json:"preempt,omitempty"` // mean distance of preemptions; -1 never, 0 drawn from the seed
	Pool      string            `json:"pool,omitempty"`    // random | empty | keep
	Epoch     int64             `json:"epoch,omitempty"`
	Files     []FileSpec        `json:"files"`
	Cwd       string            `json:"cwd"`
	Capacity  int64             `json:"capacity,omitempty"` // bytes of disk space, 0 unlimited
	Faults    []Fault           `json:"faults,omitempty"`
	Trace     *Trace            `json:"trace,omitempty"`
	MaxTicks  int64             `json:"max_ticks,omitempty"`
	MaxSteps  int64             `json:"max_steps,omitempty"`
	NoDrain   bool              `json:"no_drain,omitempty"`
	WantTrace bool              `json:"want_trace,omitempty"`
	WantState bool              `json:"want_state,omitempty"` // content hash after each mutating file operation
	WantOps   bool              `json:"want_ops,omitempty"`
	Peek      bool              `json:"peek,omitempty"` // record the trees sent over channels
}

type FileSpec struct {
	Path string `json:"path"`
	Data []byte `json:"data,omitempty"`
	Kind string `json:"kind,omitempty"` // "" regular, dir, symlink, hardlink
	To   string `json:"to,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
}

// Fault makes one file operation misbehave. The operation is the Nth (from 0)
// operation Op on the file with canonical path Path.
type Fault struct {
	Op   string  `json:"op"`
	Path string  `json:"path"`
	Nth  int     `json:"nth"`
	Kind string  `json:"kind"`           // EIO ENOSPC EACCES ENOENT EMFILE EINTR short eof kill power latency jump
	Part float64 `json:"part,omitempty"` // fraction of the request that is carried out first
	Stay bool    `json:"stay,omitempty"` // every later such operation fails as well
	When string  `json:"when,omitempty"` // kill/power: before | mid | after
	Amt  int64   `json:"amt,omitempty"`
}

type Trace struct {
	Choices  string     `json:"choices"`
	Preempts [][2]int64 `json:"preempts,omitempty"`
}

type Op struct {
	N       int    `json:"n"`
	Op      string `json:"op"`
	Path    string `json:"path"`
	Nth     int    `json:"nth"`
	Ino     int    `json:"ino,omitempty"`
	Off     int64  `json:"off,omitempty"`
	Len     int    `json:"len,omitempty"`
	Err     string `json:"err,omitempty"`
	G       string `json:"g,omitempty"`
	Mut     bool   `json:"mut,omitempty"`
	Flag    string `json:"flag,omitempty"`
	Hash    string `json:"hash,omitempty"` // content after the operation (WantState)
	Size    int64  `json:"size,omitempty"`
	Clean   bool   `json:"clean,omitempty"`
	NameDur bool   `json:"name_durable,omitempty"`
}

type Stats struct {
	Goroutines    int   `json:"goroutines"`
	Channels      int   `json:"channels"`
	ChanOps       int64 `json:"chan_ops"`
	Switches      int64 `json:"switches"`
	Steps         int64 `json:"steps"`
	Ticks         int64 `json:"ticks"`
	Preemptions   int64 `json:"preemptions"`
	SelectChoices int64 `json:"select_choices"`
	PoolHits      int64 `json:"pool_hits"`
	PoolMisses    int64 `json:"pool_misses"`
	MapOrders     int64 `json:"map_orders"`
	TimersFired   int64 `json:"timers_fired"`
	ClockJumps    int64 `json:"clock_jumps"`
	MaxRunnable   int   `json:"max_runnable"`
	FileOps       int   `json:"file_ops"`
}

type FileOut struct {
	Path  string `json:"path"`
	Data  []byte `json:"data,omitempty"`
	Kind  string `json:"kind,omitempty"`
	To    string `json:"to,omitempty"`
	Ino   int    `json:"ino"`
	Temp  bool   `json:"temp,omitempty"`
	Clean bool   `json:"clean"`
}

type Fired struct {
	Fault int    `json:"fault"`
	N     int    `json:"n"`
	Kind  string `json:"kind"`
}

// Peeked describes a finished tree that was sent over a channel.
type Peeked struct {
	ID       int `json:"id"`
	SSectors int `json:"ssectors"`
	Segs     int `json:"segs"`
	Precious int `json:"precious"`
	HL       int `json:"hl"`
	HR       int `json:"hr"`
	Verts    int `json:"verts"`
}

type Result struct {
	How           string    `json:"how"` // return exit panic gpanic deadlock stepcap killed power
	Exit          int       `json:"exit"`
	Msg           string    `json:"msg,omitempty"`
	Stdout        string    `json:"stdout"`
	Stderr        string    `json:"stderr"`
	Both          []byte    `json:"both,omitempty"`
	Files         []FileOut `json:"files"`
	Ops           []Op      `json:"ops,omitempty"`
	Fired         []Fired   `json:"fired,omitempty"`
	Stats         Stats     `json:"stats"`
	Hash          string    `json:"hash"`
	Policy        string    `json:"policy"`
	Preempt       int64     `json:"preempt"`
	VirtNS        int64     `json:"virt_ns"`
	Trace         *Trace    `json:"trace,omitempty"`
	Leaks         []string  `json:"leaks,omitempty"`
	BlockedAtExit int       `json:"blocked_at_exit"`
	DrainPanic    string    `json:"drain_panic,omitempty"`
	Peeked        []Peeked  `json:"peeked,omitempty"`
	Stderr2       string    `json:"-"` // real stderr of the process (race reports)
}

var stdoutBuf, stderrBuf, bothBuf buf

// both keeps what goes to the two standard streams in its common order: every
// write starts with byte 1 (stdout) or 2 (stderr).
func both(k byte, p []byte) {
	bothBuf.WriteByte(k)
	bothBuf.Write(p)
}

var resultPath string
var captured bool

func loadConfig() {
	p := os.Getenv("VERIF_SIM_CONFIG")
	resultPath = os.Getenv("VERIF_SIM_RESULT")
	if p == "" || resultPath == "" {
		fmt.Fprintln(os.Stderr, "simrt: no VERIF_SIM_CONFIG / VERIF_SIM_RESULT")
		os.Exit(99)
	}
	b, err := os.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, &cfg)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrt: bad config:", err)
		os.Exit(99)
	}
	if cfg.CPUs <= 0 {
		cfg.CPUs = 4
	}
	if cfg.MaxTicks <= 0 {
		cfg.MaxTicks = 4000000000
	}
	if cfg.MaxSteps <= 0 {
		cfg.MaxSteps = 50000000
	}
	if cfg.Cwd == "" {
		cfg.Cwd = "/w"
	}
	if cfg.Epoch == 0 {
		cfg.Epoch = 1700000000000000000
	}
	Os_Args = append([]string{"vigilantbsp"}, cfg.Args...)
	log.SetOutput(writerFunc(func(p []byte) (int, error) { stdErr(string(p)); return len(p), nil }))
	setupSched()
	setupFS()
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// capture freezes what the outside world sees of the simulated process.
func capture(how string, code int, msg string) {
	if captured {
		return
	}
	captured = true
	res.How, res.Exit, res.Msg = how, code, msg
	res.Stdout = stdoutBuf.String()
	res.Stderr = stderrBuf.String()
	res.Both = bothBuf.Bytes()
	res.Policy, res.Preempt = policy, preemptMean
	flushTicks()
	res.Stats.Ticks = ticks
	res.Stats.Steps = steps
	res.Stats.FileOps = len(ops)
	res.VirtNS = now - cfg.Epoch
	res.Hash = fmt.Sprintf("%016x", swHash)
	if how != "power" {
		processEnds()
	}
	res.Files = snapshotFS(how == "power")
	if cfg.WantOps || cfg.WantState {
		res.Ops = ops
	}
	res.Fired = fired
	if cfg.WantTrace {
		res.Trace = &Trace{Choices: encodeChoices(recChoices), Preempts: recPre}
	}
}

func writeResult() {
	b, err := json.Marshal(&res)
	if err == nil {
		err = os.WriteFile(resultPath, b, 0666)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrt: cannot write result:", err)
		os.Exit(99)
	}
}

func contentHash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func sortedNames(m map[string]*inode) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	return sortedStrings(ks)
}

func sortedStrings(s []string) []string {
	ks := append([]string(nil), s...)
	sort.Strings(ks)
	return ks
}

var _ = strings.Join
