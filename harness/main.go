// Command vmon runs the monitors of one property against /repo.
//
//	vmon run ID            parent: supervises a child, writes evidence
//	vmon exec ID OUT DIR   child: executes the cases
//	vmon case ID INDEX     executes a single case
//	vmon replay FILE       re-executes the case of a replay file
//	vmon list
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	_ "verif/harness/checks"
	"verif/harness/mon"
)

const (
	stallLimit  = 90 * time.Second
	aloneLimit  = 60 * time.Second
	memoryLimit = 10 << 30
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vmon run|exec|case|replay|list")
	}
	switch os.Args[1] {
	case "list":
		for _, id := range mon.IDs() {
			fmt.Println(id, mon.Lookup(id).Race)
		}
	case "run":
		os.Exit(run(prop(os.Args[2])))
	case "exec":
		execute(prop(os.Args[2]), os.Args[3], os.Args[4])
	case "case":
		i, err := strconv.Atoi(os.Args[3])
		if err != nil {
			fatal(err.Error())
		}
		os.Exit(single(prop(os.Args[2]), tier(), seed(), i))
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		fatal("unknown command " + os.Args[1])
	}
}

func fatal(msg string) {
	fmt.Fprintln(os.Stderr, "vmon:", msg)
	os.Exit(2)
}

func prop(id string) *mon.Prop {
	p := mon.Lookup(id)
	if p == nil {
		fatal("unknown property " + id)
	}
	return p
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func limitMemory(p *mon.Prop) {
	if p.Race {
		return
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memoryLimit, Max: memoryLimit})
}

func caseCount(p *mon.Prop) int {
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, err := strconv.Atoi(s)
		if err == nil {
			return n
		}
	}
	if tier() == "thorough" {
		return p.Thorough
	}
	return p.Quick
}

// execute is the child: it runs every case and writes the result. The journal
// holds the case each worker is busy with, so that the parent can name the
// culprit when the process dies or stalls.
func execute(p *mon.Prop, out, journalPath string) {
	limitMemory(p)
	journal, err := os.OpenFile(journalPath, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fatal(err.Error())
	}
	workers := runtime.GOMAXPROCS(0)
	var mu sync.Mutex
	ticks := make([]uint64, workers)
	res := mon.RunAll(p, tier(), seed(), caseCount(p), workers, func(w, i int) {
		mu.Lock()
		ticks[w]++
		t := ticks[w]
		mu.Unlock()
		var b [16]byte
		binary.LittleEndian.PutUint64(b[:], t)
		binary.LittleEndian.PutUint64(b[8:], uint64(int64(i)))
		journal.WriteAt(b[:], int64(w)*16)
	})
	b, err := json.Marshal(res)
	if err != nil {
		fatal(err.Error())
	}
	if err := os.WriteFile(out, b, 0o600); err != nil {
		fatal(err.Error())
	}
}

func single(p *mon.Prop, tier string, seed uint64, index int) int {
	limitMemory(p)
	c := mon.NewCase(p, tier, seed, index)
	v := mon.Execute(c)
	if v == nil {
		fmt.Printf("case %d of %s: held, events %v\n", index, p.ID, c.Events)
		return 0
	}
	b, _ := json.MarshalIndent(v, "", " ")
	fmt.Println(string(b))
	return 1
}

type replayFile struct {
	Property string           `json:"property"`
	Tier     string           `json:"tier"`
	Seed     uint64           `json:"seed"`
	Case     int              `json:"case"`
	Detail   []*mon.Violation `json:"detail"`
	Output   string           `json:"output,omitempty"`
	How      string           `json:"how"`
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err.Error())
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err.Error())
	}
	return single(prop(r.Property), r.Tier, r.Seed, r.Case)
}

type slot struct {
	tick  uint64
	index int64
}

func readJournal(path string) []slot {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var s []slot
	for len(b) >= 16 {
		s = append(s, slot{binary.LittleEndian.Uint64(b), int64(binary.LittleEndian.Uint64(b[8:]))})
		b = b[16:]
	}
	return s
}

type outcome struct {
	res    *mon.Result
	died   string // why the child did not finish
	busy   []int  // cases in progress when it ended
	output string
	races  []string
}

// attempt supervises one child.
func attempt(p *mon.Prop, dir string) *outcome {
	out := filepath.Join(dir, "result.json")
	journal := filepath.Join(dir, "journal")
	stderr := filepath.Join(dir, "stderr")
	for _, f := range []string{out, journal, stderr} {
		os.Remove(f)
	}
	ef, err := os.Create(stderr)
	if err != nil {
		fatal(err.Error())
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "exec", p.ID, out, journal)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	if err := cmd.Start(); err != nil {
		fatal(err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := &outcome{}
	seen := map[int]uint64{}
	since := map[int]time.Time{}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
wait:
	for {
		select {
		case err := <-done:
			if err != nil {
				o.died = err.Error()
			}
			break wait
		case now := <-tick.C:
			for w, s := range readJournal(journal) {
				if s.index < 0 || seen[w] != s.tick {
					seen[w] = s.tick
					since[w] = now
					continue
				}
				if now.Sub(since[w]) > stallLimit {
					o.died = "no progress"
					o.busy = append(o.busy, int(s.index))
				}
			}
			if o.died != "" {
				cmd.Process.Kill()
				<-done
				break wait
			}
		}
	}
	ef.Close()
	b, _ := os.ReadFile(stderr)
	if len(b) > 6000 {
		b = append(b[:3000:3000], b[len(b)-3000:]...)
	}
	o.output = string(b)
	if o.died != "" && o.died != "no progress" {
		for _, s := range readJournal(journal) {
			if s.index >= 0 {
				o.busy = append(o.busy, int(s.index))
			}
		}
	}
	if o.died == "" {
		rb, err := os.ReadFile(out)
		if err != nil {
			fatal("no result: " + err.Error() + "\n" + o.output)
		}
		o.res = &mon.Result{}
		if err := json.Unmarshal(rb, o.res); err != nil {
			fatal(err.Error())
		}
	}
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		rb, _ := os.ReadFile(l)
		for _, block := range strings.Split(string(rb), "==================") {
			if strings.Contains(block, "DATA RACE") && strings.Contains(block, "go-wasm") {
				o.races = append(o.races, block)
			}
		}
	}
	return o
}

// alone runs one case in its own process and tells whether it dies there too.
func alone(p *mon.Prop, index int) (bool, string) {
	self, _ := os.Executable()
	cmd := exec.Command(self, "case", p.ID, strconv.Itoa(index))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	timer := time.AfterFunc(aloneLimit, func() { cmd.Process.Kill() })
	b, err := cmd.CombinedOutput()
	expired := !timer.Stop()
	if len(b) > 4000 {
		b = b[:4000]
	}
	if err == nil {
		return false, ""
	}
	if expired {
		return true, "the case does not terminate\n" + string(b)
	}
	return true, err.Error() + "\n" + string(b)
}

func run(p *mon.Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vmon-"+p.ID+"-")
	if err != nil {
		fatal(err.Error())
	}
	defer os.RemoveAll(dir)

	o := attempt(p, dir)
	var violations []*mon.Violation
	note := ""
	if o.died != "" {
		for _, i := range o.busy {
			bad, text := alone(p, i)
			if bad {
				violations = append(violations, &mon.Violation{Case: i, Msg: "the process under observation ended abnormally (" + o.died + "): " + text, Stack: o.output})
				break
			}
		}
		if len(violations) == 0 {
			// not reproducible with the cases in progress: decide on a second run
			first := o
			o = attempt(p, dir)
			if o.died != "" {
				i := 0
				if len(first.busy) > 0 {
					i = first.busy[0]
				}
				violations = append(violations, &mon.Violation{Case: i, Msg: "the process under observation ended abnormally twice: " + first.died + ", " + o.died, Stack: o.output})
			} else {
				note = "a first attempt ended abnormally (" + first.died + ") and was inconclusive; the second completed"
			}
		}
	}
	if o.res != nil {
		violations = append(violations, o.res.Violations...)
	}
	for _, r := range o.races {
		violations = append(violations, &mon.Violation{Msg: "data race", Stack: r})
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	evidence := filepath.Join(root, "evidence")
	os.MkdirAll(evidence, 0o755)
	writeEvidence(p, evidence, o, len(violations), note, time.Since(start))
	if len(violations) > 0 {
		v := violations[0]
		path := filepath.Join(evidence, fmt.Sprintf("replay-%s-%d-%d.json", p.ID, seed(), v.Case))
		b, _ := json.MarshalIndent(&replayFile{
			Property: p.ID, Tier: tier(), Seed: seed(), Case: v.Case, Detail: violations, Output: o.output,
			How: "bash /verif/check.sh replay " + path,
		}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("case %d: %s\n", v.Case, msg)
		return 1
	}
	for _, need := range p.Need {
		if o.res.Events[need] == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: the monitors never observed %q\n", p.ID, need)
			return 3
		}
	}
	if o.res.Evals == 0 || o.res.Distinct == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: nothing was observed\n", p.ID)
		return 3
	}
	fmt.Printf("%s held on %d executions (%d cases, %d distinct) in %.1fs\n", p.ID, o.res.Evals, o.res.Cases, o.res.Distinct, time.Since(start).Seconds())
	return 0
}

func writeEvidence(p *mon.Prop, dir string, o *outcome, violations int, note string, wall time.Duration) {
	res := o.res
	if res == nil {
		res = &mon.Result{Events: map[string]int{}}
	}
	samples := res.Samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         res.Evals,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               res.Cases,
		"events_observed":     res.Events,
	}
	if p.Race {
		cov["race_reports"] = len(o.races)
	}
	if note != "" {
		cov["note"] = note
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        tier(),
		"seed":        seed(),
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      float64(wall.Milliseconds()) / 1000,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err.Error())
	}
}
