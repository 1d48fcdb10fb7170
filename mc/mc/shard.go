package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"time"
)

// sharded checks run one case at a time per process, in several processes.
var sharded = map[string]bool{}

// shardReport is what one process found.
type shardReport struct {
	Total    *Stat
	Sections []*SectionReport
	Samples  []interface{}
	Notes    []string
	Complete bool
	Flaky    int64
	Extra    map[string]interface{}
	Assume   []string
	Rule     string
	Level    string
	Msg      string
	Replay   string
	Violated bool
}

func (c *Ctx) shardResult() int {
	r := shardReport{Total: c.total, Sections: c.sections, Samples: c.samples, Notes: c.notes, Complete: c.complete, Flaky: c.flaky, Extra: c.extra, Assume: c.Assume, Rule: c.Rule, Level: c.Level}
	if v := c.viol.Load(); v != nil {
		r.Msg, r.Replay, r.Violated = v.msg, v.replay, true
	}
	b, err := json.Marshal(r)
	if err == nil {
		err = os.WriteFile(os.Getenv("MC_SHARD_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "shard:", err)
		return 2
	}
	if r.Violated {
		return 1
	}
	return 0
}

// runShards runs the check in several processes and merges what they found.
func runShards(c *Ctx) int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	tmp, err := os.MkdirTemp("", "mcshard")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	if p := os.Getenv("MC_SLOTS"); p != "" {
		os.Remove(p)
	}
	type proc struct {
		cmd  *exec.Cmd
		out  string
		err  bytes.Buffer
		done chan int
	}
	ps := make([]*proc, n)
	finished := make(chan int, n)
	for i := range ps {
		p := &proc{out: filepath.Join(tmp, fmt.Sprint(i))}
		ps[i] = p
		p.cmd = exec.Command("/proc/self/exe", "child", c.ID, c.Tier)
		p.cmd.Env = append(os.Environ(), fmt.Sprintf("MC_SHARD=%d/%d", i, n), "MC_SHARD_OUT="+p.out)
		p.cmd.Stdout, p.cmd.Stderr = os.Stdout, &p.err
		if err := p.cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		go func(i int) { p.cmd.Wait(); finished <- i }(i)
	}
	code := 0
	for k := 0; k < n; k++ {
		i := <-finished
		p := ps[i]
		rc := p.cmd.ProcessState.ExitCode()
		if rc < 0 {
			rc = 5
		}
		if e := p.err.Bytes(); len(e) > 0 {
			if len(e) > 4000 {
				e = e[:4000]
			}
			os.Stderr.Write(e)
		}
		if rc != 0 && code == 0 {
			code = rc
			for _, o := range ps { // the others need not go on
				if o.cmd.ProcessState == nil {
					go func(o *proc) {
						time.Sleep(300 * time.Millisecond)
						o.cmd.Process.Kill()
					}(o)
				}
			}
		}
	}
	if code > 1 {
		return code
	}
	var v *shardReport
	for _, p := range ps {
		b, err := os.ReadFile(p.out)
		if err != nil {
			c.complete = false
			continue
		}
		r := &shardReport{}
		if err := json.Unmarshal(b, r); err != nil {
			fmt.Fprintln(os.Stderr, "shard:", err)
			return 2
		}
		c.total.add(r.Total)
		c.complete = c.complete && r.Complete
		c.flaky += r.Flaky
		c.notes = append(c.notes, r.Notes...)
		c.Assume, c.Rule, c.Level = r.Assume, r.Rule, r.Level
		for k, x := range r.Extra {
			c.extra[k] = x
		}
		if len(c.samples) < 12 {
			c.samples = append(c.samples, r.Samples...)
		}
		for i, s := range r.Sections {
			if i == len(c.sections) {
				c.sections = append(c.sections, s)
				continue
			}
			t := c.sections[i]
			t.Cases += s.Cases
			t.Traces += s.Traces
			t.Complete = t.Complete && s.Complete
			if len(s.Seconds) > len(t.Seconds) || len(s.Seconds) == len(t.Seconds) && s.Seconds > t.Seconds {
				t.Seconds = s.Seconds
			}
		}
		if r.Violated && v == nil {
			v = r
		}
	}
	c.extra["processes"] = n
	nv := 0
	if v != nil {
		c.viol.Store(&violation{v.Msg, v.Replay})
		nv = 1
	}
	return c.finish(nv)
}
