package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"sync"
)

var checks = map[string]func(*Ctx){
	"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P16": p16, "P14": p14, "P19": p19, "P20": p20, "P21": p21, "P22": p22, "P23": p23, "P24": p24, "P25": p25, "P26": p26, "P15": p15, "P17": p17, "P18": p18, "P27": p27, "P28": p28,
}

var levels = map[string]string{"P04": "fault_enumeration", "P22": "fault_enumeration"}

// extra are helper programs run as child processes of some checks.
var extra = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness P01|...|P28 [--case N]")
		os.Exit(2)
	}
	id := os.Args[1]
	if f, ok := extra[id]; ok {
		f(os.Args[2:])
		return
	}
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check", id)
		os.Exit(2)
	}
	if levels[id] == "" {
		levels[id] = "exploration"
	}
	if os.Getenv("HARNESS_CHILD") == "" {
		supervise(id)
		return
	}
	c := newCtx(id)
	if len(os.Args) == 4 && os.Args[2] == "--case" {
		c.only, _ = strconv.Atoi(os.Args[3])
	}
	fmt.Sscanf(os.Getenv("HARNESS_CHILD"), "%d/%d", &c.shard, &c.shards)
	debug.SetGCPercent(400)
	go c.watchdog()
	f(c)
	c.finish()
}

// fatalRe matches the ways the Go runtime ends a program that recover cannot
// catch, all of them the doing of the code under test.
var fatalRe = regexp.MustCompile(`(?m)^(fatal error: (stack overflow|concurrent map.*|all goroutines are asleep.*)|runtime: goroutine stack exceeds.*|WARNING: DATA RACE|panic: .*)`)

// tail keeps the beginning and the end of what is written to it.
type tail struct{ head, rest bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if room := 64<<10 - t.head.Len(); room > 0 {
		k := room
		if k > len(p) {
			k = len(p)
		}
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.rest.Write(p)
	if t.rest.Len() > 1<<20 {
		b := t.rest.Bytes()
		b = append([]byte{}, b[len(b)-64<<10:]...)
		t.rest.Reset()
		t.rest.Write(b)
	}
	return n, nil
}

// undivided checks run in one process.
var undivided = map[string]bool{"P23": true}

// supervise runs the check in child processes, each with a part of the cases,
// so that a fatal error of the runtime becomes a verdict as well.
func supervise(id string) {
	shards := 7
	if undivided[id] || len(os.Args) > 2 {
		shards = 1
	}
	if os.Getenv("VERIF_WORK") == "" {
		d, err := os.MkdirTemp("", "xsqlverif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Setenv("VERIF_WORK", d)
		defer os.RemoveAll(d)
	}
	c := newCtx(id)
	c.forgetReplays()
	cmds := make([]*exec.Cmd, shards)
	errs := make([]tail, shards)
	var wg sync.WaitGroup
	run := func(k int) {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		spec := fmt.Sprintf("%d/%d", k, shards)
		if shards == 1 {
			spec = "0/0"
		}
		cmd.Env = append(os.Environ(), "HARNESS_CHILD="+spec)
		cmd.Stdout, cmd.Stderr = os.Stdout, &errs[k]
		cmds[k] = cmd
		cmd.Run()
	}
	for k := 0; k < shards-1; k++ {
		wg.Add(1)
		go func(k int) { defer wg.Done(); run(k) }(k)
	}
	wg.Wait()
	run(shards - 1)
	if code := cmds[0].ProcessState.ExitCode(); shards == 1 && code <= 1 && code >= 0 {
		os.Exit(code)
	}
	failed := ""
	c.rule = "the run was ended by the runtime"
	for k := 0; k < shards; k++ {
		code := cmds[k].ProcessState.ExitCode()
		if code == 0 && c.merge(k) {
			continue
		}
		all := errs[k].head.String() + errs[k].rest.String()
		m := ""
		if code != 3 {
			m = fatalRe.FindString(all)
		}
		if m == "" {
			failed = fmt.Sprintf("%s\nCHECK-ERROR %s: part %d of %d ended with %d\n", all, id, k, shards, code)
			continue
		}
		c.caseID = -1
		c.evals++
		c.violate("fatal", m, all)
	}
	if failed != "" {
		fmt.Fprint(os.Stderr, failed)
		if len(c.viol) == 0 {
			os.Exit(3)
		}
	}
	c.finish()
}

func selfPath() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return filepath.Clean(p)
}
