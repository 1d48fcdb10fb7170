// Command mc is the model checker for gojsonschema: it enumerates bounded spaces of
// behaviours of the real library and compares each with the reference model.
//
//	mc run C01 quick|thorough     explore one property (parent process)
//	mc child C01 quick            the exploring process itself
//	mc replay FILE                run one recorded case
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/xeipuuv/gojsonschema/verifshim"
)

var checks = map[string]func(*Ctx){}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run|child ID TIER | mc replay FILE")
		os.Exit(2)
	}
	if verifshim.RaceBuild && os.Getenv("GORACE") == "" {
		// the race detector reads its options when the process starts
		log := filepath.Join(os.TempDir(), fmt.Sprintf("mcrace%d", os.Getpid()))
		os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 log_path="+log)
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
		err := cmd.Run()
		logs, _ := filepath.Glob(log + ".*")
		for _, l := range logs {
			os.Remove(l)
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if ee.ExitCode() < 0 {
				os.Exit(5)
			}
			os.Exit(ee.ExitCode())
		}
		if err != nil {
			os.Exit(2)
		}
		os.Exit(0)
	}
	verifshim.Goid = goid
	switch os.Args[1] {
	case "child":
		os.Exit(runCheck(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	case "run":
		os.Exit(parent(os.Args[2], os.Args[3]))
	}
	os.Exit(2)
}

func replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	mk := kinds[r.Kind]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "unknown kind", r.Kind)
		return 2
	}
	cs := mk()
	if err := json.Unmarshal(r.Case, cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	verifshim.Order = r.Order
	go watchMemory()
	if f := safeRun(cs, newStat()); f != nil {
		fmt.Println(f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

// parent runs the exploration in a child process, so that fatal errors of the library
// (stack overflow, concurrent map access, out of memory) and hangs are observed as well.
func parent(id, tier string) int {
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	slots := filepath.Join(tmp, "slots")
	var lastErr []byte
	for attempt := 0; attempt < 2; attempt++ {
		code, stderr := child(slots, "child", id, tier)
		if code == 0 || code == 1 {
			return code
		}
		if code == 2 { // an error of the harness itself
			return 2
		}
		lastErr = stderr
		_, herr := os.Stat(slots + ".hang")
		hang := herr == nil || code == 5 // 5: killed, for want of memory most likely
		b, _ := os.ReadFile(slots)
		for w := 0; w*slotSize < len(b); w++ {
			s := b[w*slotSize : (w+1)*slotSize]
			if i := bytes.IndexByte(s, 0); i > 0 {
				var r Replay
				if json.Unmarshal(s[:i], &r) != nil {
					continue
				}
				p := filepath.Join(tmp, "slot.json")
				os.WriteFile(p, s[:i], 0o644)
				what, ok := crashes(p, hang)
				if !ok {
					continue
				}
				r.Message = what
				r.HowTo = "cd /verif && ./check replay THIS_FILE"
				out, _ := json.MarshalIndent(r, "", " ")
				path := writeReplay(id, out)
				crashEvidence(id, tier, what)
				fmt.Println(firstLines(what, 20))
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
				return 1
			}
		}
		fmt.Fprintf(os.Stderr, "exploration ended abnormally (exit %d), no single case reproduces it; running it again\n", code)
	}
	// twice an abnormal end during exploration: the library brings the process down
	out, _ := json.MarshalIndent(Replay{Property: id, Kind: "whole-run", Message: string(lastErr), HowTo: "cd /verif && ./check " + id + " " + tier}, "", " ")
	path := writeReplay(id, out)
	crashEvidence(id, tier, string(lastErr))
	fmt.Println(firstLines(string(lastErr), 20))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func child(slots string, args ...string) (int, []byte) {
	os.Remove(slots + ".hang")
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "MC_SLOTS="+slots)
	cmd.Stdout = os.Stdout
	var buf bytes.Buffer
	cmd.Stderr = &buf
	err := cmd.Run()
	stderr := buf.Bytes()
	if len(stderr) > 6000 {
		stderr = stderr[:6000]
	}
	os.Stderr.Write(stderr)
	if err == nil {
		return 0, stderr
	}
	if ee, ok := err.(*exec.ExitError); ok {
		code := ee.ExitCode()
		if code == 2 && (bytes.Contains(stderr, []byte("fatal error:")) || bytes.Contains(stderr, []byte("goroutine stack exceeds"))) {
			code = 4
		}
		if code == 2 && bytes.Contains(stderr, []byte("panic:")) && !bytes.Contains(stderr, []byte("INTERNAL")) {
			code = 4
		}
		if code < 0 {
			code = 5
		}
		return code, stderr
	}
	return 2, stderr
}

// crashes runs one recorded case on its own, twice; it has to end abnormally both times.
func crashes(p string, hang bool) (string, bool) {
	what := ""
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
		exe, _ := os.Executable()
		cmd := exec.CommandContext(ctx, exe, "replay", p)
		out, err := cmd.CombinedOutput()
		timedOut := ctx.Err() != nil
		cancel()
		if err == nil {
			return "", false
		}
		if timedOut {
			if !hang {
				return "", false
			}
			what = "the call does not return (no answer within 80 s; it normally takes less than 1 ms)"
			continue
		}
		if len(out) > 3000 {
			out = out[:3000]
		}
		what = "the call does not return or brings the process down: " + string(out)
	}
	return what, true
}

func crashEvidence(id, tier, what string) {
	c := &Ctx{ID: id, Tier: tier, Level: "model_checking", total: newStat(), started: time.Now(), extra: map[string]interface{}{}}
	c.samples = []interface{}{what}
	c.notes = []string{"the exploring process ended abnormally"}
	c.evidence(1)
}
