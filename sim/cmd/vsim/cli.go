package main

import (
	"strconv"
	"strings"
)

// cli is the part of a command line the oracles need. It is parsed from the
// argument list so that minimised replay files need nothing else.
type cli struct {
	b, n         bool
	bo           string // offset mode
	bs, ba       string // "", "+", "?"
	bz           int
	be           int
	br           bool
	bt           int
	nfmt         byte
	nm           int
	ni           int
	nt           int
	rej          byte // 'n' normal, 'z' zero, '-' untouched
	rmb          bool
	filter       map[string]bool
	inverse      bool
	det, hash    bool
	eject        bool
	in, out      string
	verbose      int
	roots        int
	ableist      bool
	noself       bool
	rs           int
	multithreadN bool
}

func parseCLI(args []string) *cli {
	c := &cli{b: true, n: true, bo: "2", bz: 1, nfmt: 'v', rej: 'n'}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-o":
			if i+1 < len(args) {
				c.out = args[i+1]
				i++
			}
		case a == "-d":
			c.det = true
		case a == "--hashlump":
			c.hash = true
		case a == "--eject":
			c.eject = true
		case a == "--ableist":
			c.ableist = true
		case strings.HasPrefix(a, "--roots="):
			c.roots, _ = strconv.Atoi(a[8:])
		case strings.HasPrefix(a, "--"):
		case strings.HasPrefix(a, "-m:"), strings.HasPrefix(a, "-!m:"):
			c.inverse = a[1] == '!'
			c.filter = map[string]bool{}
			for _, m := range strings.Split(a[strings.IndexByte(a, ':')+1:], "+") {
				c.filter[strings.ToUpper(m)] = true
			}
		case strings.HasPrefix(a, "-v"):
			c.verbose = len(a) - 1
		case strings.HasPrefix(a, "-b"), strings.HasPrefix(a, "-n"), strings.HasPrefix(a, "-r"):
			c.group(a[1], a[2:])
		case strings.HasPrefix(a, "-"):
		default:
			c.in = a
		}
	}
	return c
}

func (c *cli) group(g byte, p string) {
	if p == "-" {
		switch g {
		case 'b':
			c.b = false
		case 'n':
			c.n = false
		case 'r':
			c.rej = '-'
		}
		return
	}
	for len(p) > 0 {
		k := p[0]
		p = p[1:]
		val := ""
		mark := byte('+')
		if strings.HasPrefix(p, "=") {
			j := 1
			if g == 'n' && k == 'c' {
				j = 2
				for j < len(p) && p[j] >= '0' && p[j] <= '9' {
					j++
				}
			} else {
				for j < len(p) && (p[j] >= '0' && p[j] <= '9' || p[j] == ',') {
					j++
				}
			}
			val = p[1:j]
			p = p[j:]
		} else if p != "" && (p[0] == '+' || p[0] == '-' || p[0] == '?') {
			mark = p[0]
			p = p[1:]
		}
		num, _ := strconv.Atoi(val)
		switch string([]byte{g, k}) {
		case "bo":
			c.bo = val
		case "bs":
			c.bs = string(mark)
		case "ba":
			c.ba = string(mark)
		case "bz":
			c.bz = num
		case "be":
			c.be = num
		case "br":
			c.br = mark == '+'
		case "bt":
			c.bt = num
		case "nc":
			if val != "" {
				c.nfmt = val[0]
			}
		case "nm":
			c.nm = num
		case "ni":
			c.ni = num
		case "nt":
			c.nt = num
		case "rz":
			c.rej = 'z'
		case "rm":
			c.rmb = mark == '+'
		case "rs":
			c.rs = num
		}
	}
}

func (c *cli) selected(level string) bool {
	if len(c.filter) == 0 {
		return true
	}
	return c.filter[level] != c.inverse
}

// outPath is where the result ends up.
func (c *cli) outPath() string {
	p := c.in
	if c.out != "" {
		p = c.out
	}
	if !strings.HasPrefix(p, "/") {
		p = "/w/" + p
	}
	return p
}

// toFile tells whether the output goes to a file of its own.
func (c *cli) fmtName() string {
	switch c.nfmt {
	case 0, 'v', 'V':
		return "vanilla"
	}
	return string(rune(c.nfmt))
}

func (c *cli) toFile() bool { return c.out != "" }
