package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	rt "vsim/simrt"
)

// stuck reports what must not happen to any run, whatever its faults: a hang, a
// crashing worker, or a worker left waiting for a message nobody sends.
func stuck(i int, res *rt.Result) *Violation {
	switch res.How {
	case "gpanic":
		return viol("worker-panic", i, "a worker crashed: %s", firstLines(res.Msg, 16))
	case "deadlock":
		return viol("deadlock", i, "every goroutine is blocked: %s", firstLines(res.Msg, 24))
	case "stepcap":
		return viol("no-progress", i, "the run did not end within its step budget: %s", firstLines(res.Msg, 24))
	case "fatal":
		return viol("fatal", i, "the runtime gave up: %s", firstLines(res.Msg, 16))
	case "panic":
		if strings.Contains(res.Msg, "runtime error") {
			return viol("panic", i, "the main goroutine crashed: %s", firstLines(res.Msg, 16))
		}
		return viol("panic", i, "the program aborted: %s", firstLines(res.Msg, 16))
	}
	if len(res.Leaks) > 0 {
		return viol("stuck-worker", i, "%d worker(s) never finish: %s", len(res.Leaks), firstLines(strings.Join(res.Leaks, "\n"), 12))
	}
	if res.DrainPanic != "" {
		return viol("worker-panic", i, "a worker crashed after the main goroutine ended: %s", firstLines(res.DrainPanic, 16))
	}
	return nil
}

// odd adds options that change how the workers are set up, not what they write.
func moreOptions(r *Rng, o *Options) {
	if r.P(0.15) && o.N != "-" {
		o.Rest = append(o.Rest, "--unreversenodes")
	}
	if r.P(0.1) && o.N != "-" {
		o.N += fmt.Sprintf("w=%d", r.PickI(0, 2, 3, 7))
	}
	if r.P(0.1) && o.N != "-" {
		o.N += fmt.Sprintf("r=%d", r.Range(1, 4))
	}
	if r.P(0.05) {
		o.Rest = append(o.Rest, "--roots")
	}
	if r.P(0.05) {
		o.Rest = append(o.Rest, "--roots=0")
	}
}

var tooMuchWork = regexp.MustCompile(`o=[34]`)

// garble misspells an argument, or takes its numbers to the extremes.
func garble(r *Rng, a []string) []string {
	keep := append([]string(nil), a...)
	for try := 0; try < 8; try++ {
		b := append([]string(nil), keep...)
		for n := r.Range(1, 3); n > 0; n-- {
			var at []int
			for i, s := range b {
				if strings.HasPrefix(s, "-") && s != "-o" {
					at = append(at, i)
				}
			}
			switch k := r.N(10); {
			case k == 0 || len(at) == 0: // one that stands alone
				w := r.Pick("-nc", "-nc=", "-nc=q", "-nc=z-", "-nc=z+", "-nc=Z-2", "-nc=z9m=2", "-bo=", "-bo=0,", "-bo=,0", "-bt=", "-nw=", "-nm=4", "-nf=0", "-nd-", "-rq", "-rs=9", "-m:", "-m:map01+", "-m", "-!m", "-!m:map01", "-!", "-", "--", "-x", "-t", "-d+", "-d-", "-dd", "-vvvvv", "-b+", "-n+", "-r+", "-be+", "-bz-", "--roots=", "--roots-", "--sidecache", "--sidecache-", "--sidecache=7", "--detailnodes", "--detailnodes=9", "--stknode-", "--stknode=2", "--speedtree+", "--speedtree=5", "--zenvar", "--zenvar:", "--zenvar:x1", "--zenvar:=", "--zenvar:''", "--zenvar:x1=1,", "--cpuprofile", "--memprofile", "--cpuprofile", "--memprofile", "--disableudmf", "--eject", "-o", "second.wad")
				if r.P(0.4) {
					b = append(b, w)
				} else {
					i := r.N(len(b) + 1)
					b = append(b[:i], append([]string{w}, b[i:]...)...)
				}
			case k < 5: // an extreme number
				i := at[r.N(len(at))]
				m := numRe.FindAllStringIndex(b[i], -1)
				if len(m) == 0 {
					continue
				}
				x := m[r.N(len(m))]
				b[i] = b[i][:x[0]] + r.Pick("0", "1", "127", "128", "255", "256", "32767", "32768", "65535", "65536", "65537", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "-", "+1", "", "0x10") + b[i][x[1]:]
			default:
				i := at[r.N(len(at))]
				s, q := b[i], r.N(len(b[i])+1)
				switch r.N(4) {
				case 0:
					s = s[:q]
				case 1:
					if q < len(s) {
						s = s[:q] + s[q+1:]
					}
				case 2:
					s = s[:q] + string("=+-,:?019aczomtewrdvVxX"[r.N(23)]) + s[q:]
				default:
					s += s[q:]
				}
				b[i] = s
			}
		}
		if !tooMuchWork.MatchString(strings.Join(b, " ")) {
			return b
		}
	}
	return keep
}

var numRe = regexp.MustCompile(`\d+`)

func init() {
	register(&Prop{ID: "C08", Quick: 5500, Thorough: 60000,
		Rule: "Each seed generates a wad (also degenerate: levels without sectors or sidedefs, one line, huge extents), options from the whole command line, an RMB file, thread and CPU counts and two schedules; every run has to end by itself with no worker crashed or left blocked.",
		Gen: func(e *Exec, r *Rng, i int) []*Case {
			far, big := r.P(0.015), bigKind(i, 50, 6)
			g := genOpt{maxLevels: 3, odd: r.P(0.5), hexen: 0.2, maxW: []int{2, 4, 6, 8}[r.N(4)], scroll: 0.2, tags: 0.3}
			if big != "" {
				far, g.maxLevels = false, 1
			} else if far {
				g.far, g.maxLevels, g.maxW = 1, 1, 3
			}
			c, o := buildCase(r, g, optGen{multitree: 0.35, endgoal: 0.45, noRebuild: true, rejectZ: true, filter: true, eject: true, hash: 0.15, verbose: 0.15})
			if far {
				o.B = strings.ReplaceAll(o.B, "o=2", "")
			} else if big == "" && r.P(0.15) {
				for _, it := range c.Wads["/w/in.wad"].Items {
					if it.Level != nil && r.P(0.6) {
						it.Level.Zero = append(it.Level.Zero, r.Pick("SECTORS", "SIDEDEFS", "THINGS", "LINEDEFS", "VERTEXES"))
						if r.P(0.3) {
							it.Level.Zero = append(it.Level.Zero, r.Pick("SECTORS", "SIDEDEFS", "SEGS", "NODES"))
						}
					}
				}
			}
			moreOptions(r, &o)
			if r.P(0.3) {
				withOptionFile(r, c, &o, r.P(0.5))
			}
			o.Det = r.P(0.4)
			if big != "" {
				bigWad(r, c, &o, big)
			} else if i%25 == 11 {
				for _, it := range c.Wads["/w/in.wad"].Items {
					if it.Level != nil && r.P(0.5) {
						it.Level.setLong(r)
					}
				}
				o.B = strings.ReplaceAll(o.B, "o=2", "")
			}
			manyRuns(r, c, o, 2)
			if big == "" && (r.P(0.1) || os.Getenv("VSIM_WILD") != "") {
				a := garble(r, c.Runs[0].Args)
				for i := range c.Runs {
					c.Runs[i].Args = a
				}
				c.Extra["wild"] = "1"
			}
			return []*Case{c}
		},
		Check: func(e *Exec, c *Case) *Violation {
			for i := range c.Runs {
				res := c.do(e, i)
				if v := stuck(i, res); v != nil {
					return v
				}
				if c.Extra["wild"] != "" { // refused, or understood in some way
					continue
				}
				if v := endsWell(c, i, res); v != nil {
					return v
				}
			}
			return nil
		}})
}
