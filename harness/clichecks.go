package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// ---------------------------------------------------------------- C24

func init() {
	register(&Check{ID: "C24", Quick: 48, Thorough: 600, MinEvals: 2000, Run: runC24,
		Rule: "the built binary runs every command of a complete ceremony with 0 to 8 arguments, with its arguments in the documented order (outputs compared with those of the library call, or with the monitor's model) and exchanged, with numbers that are malformed, out of range or congruent to valid ones modulo a power of two, with circuits around the size of the SRS, with outputs that can't be created, and on damaged inputs, where the exit status must be zero exactly if the library call returns no error; refused arguments must leave no usable output; distinct by (command, arguments, ceremony)"})
}

// usable tells whether an output that a refused command left could be taken
// for the result
func usable(o string) bool {
	b, err := os.ReadFile(o)
	if err != nil || len(b) == 0 {
		return false
	}
	switch {
	case strings.HasSuffix(o, ".ph1"):
		_, err = parseP1As(b, true)
		return err == nil
	case strings.HasSuffix(o, ".ph2"):
		_, _, err = parseP2As(b, true)
		return err == nil
	case o == "pk":
		_, err = parsePK(b)
		return err == nil
	case o == "vk" || strings.HasSuffix(o, ".vk.save"):
		_, err = parseVK(b)
		return err == nil
	case strings.HasSuffix(o, ".sol"):
		return bytes.Contains(b, []byte("contract"))
	}
	return false
}

// sameFile compares two files by content: the numbers that gob gives to types
// depend on what the process encoded before
func sameFile(o string, a, b []byte) error {
	switch {
	case strings.HasSuffix(o, ".ph2"):
		p, _, err := parseP2(a)
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		q, _, err := parseP2(b)
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		if !bytes.Equal(p.Bytes(), q.Bytes()) {
			return fmt.Errorf("%s has another content", o)
		}
	case o == "evals":
		p, err := parseEvals(a)
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		q, err := parseEvals(b)
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
		if fmt.Sprint(p) != fmt.Sprint(q) {
			return fmt.Errorf("%s has another content", o)
		}
	case !bytes.Equal(a, b):
		return fmt.Errorf("%s has another content", o)
	}
	return nil
}

// sameOutputs compares the outputs of the binary with those of the library
func (c *Ctx) sameOutputs(k *Cmd, ref map[string][]byte) error {
	for _, o := range k.Outputs {
		b, err := os.ReadFile(o)
		if err != nil {
			return err
		}
		switch {
		case k.Name == "p1c", k.Name == "p2c":
			// fresh secrets
		case o == "vk", strings.HasSuffix(o, ".vk.save"):
			// the commitment key is fresh
			if _, err := parseVK(b); err != nil {
				return fmt.Errorf("%s: %v", o, err)
			}
		case strings.HasSuffix(o, ".CommitmentKey.save"):
			if len(b) != len(ref[o]) {
				return fmt.Errorf("%s has %d bytes instead of %d", o, len(b), len(ref[o]))
			}
		default:
			if err := sameFile(o, b, ref[o]); err != nil {
				return err
			}
		}
	}
	return nil
}

func runC24(c *Ctx) {
	f := c.fixture(1+c.IntN(3), 1+c.IntN(2), 1+c.IntN(2), c.P(1, 4), false)
	all, _ := filepath.Glob("*")
	whole := snap(all)
	reset := func() {
		l, _ := filepath.Glob("*")
		for _, p := range l {
			if _, ok := whole[p]; !ok {
				os.RemoveAll(p)
			}
		}
		for p, b := range whole {
			if x, err := os.ReadFile(p); err != nil || !bytes.Equal(x, b) {
				os.RemoveAll(p)
				mustWrite(p, b)
			}
		}
	}
	what := func(args []string) string {
		q := make([]string, len(args))
		for i, a := range args {
			q[i] = fmt.Sprintf("%q", a)
		}
		return strings.Join(q, " ")
	}
	// refuse runs something that has to fail
	refuse := func(why string, out string, args ...string) {
		var r cliRes
		if out != "" {
			os.RemoveAll(out)
		}
		r = c.cliLimited(args...)
		c.Eval(fmt.Sprint(c.Case, args), true)
		c.Count("refusals", 1)
		switch {
		case strings.Contains(r.Err, "out of memory"):
			c.Count("declared_more_than_the_memory", 1)
		case r.Code == 0:
			c.Violation("accepted-"+args[0], "setup %s (%s) exits with 0", what(args), why)
		case strings.TrimSpace(r.Err) == "" && strings.TrimSpace(r.Out) == "":
			c.Violation("silent-"+args[0], "setup %s (%s) exits with %d and no message", what(args), why, r.Code)
		}
		if out != "" && usable(out) {
			c.Violation("usable-"+args[0], "setup %s (%s) exits with %d but leaves a complete %s", what(args), why, r.Code, out)
		}
		if why != "arguments exchanged" {
			ins := map[string][]byte{}
			for p, b := range whole {
				switch p {
				case "evals", "srs.lag", "pk", "vk", "S.sol":
					// outputs too
				default:
					ins[p] = b
				}
			}
			c.unchanged(ins, "setup "+what(args)+" ("+why+")")
		}
		reset()
	}
	cmds := f.commands()
	byName := map[string]*Cmd{}
	for _, k := range cmds {
		byName[k.Name] = k
	}

	// right arguments
	for _, k := range cmds {
		if k.Slow && !c.P(1, 2) {
			continue
		}
		k.removeOutputs()
		reset()
		for _, o := range k.Outputs {
			os.Remove(o)
			if _, in := whole[o]; in && (o == "evals") && strings.HasPrefix(k.Name, "key") {
				mustWrite(o, whole[o])
			}
		}
		if err := k.api(); err != nil {
			c.Refused("%s fails: %v", k.Name, err)
		}
		ref := snap(k.Outputs)
		for _, o := range k.Outputs {
			os.Remove(o)
		}
		r := c.cli(append([]string{k.Name}, k.Args...)...)
		c.Eval(fmt.Sprint(c.Case, k.Name, "right"), true)
		c.Count("right_arguments", 1)
		if r.Code != 0 {
			c.Violation("failed-"+k.Name, "setup %s %s exits with %d (%s) where the library call succeeds", k.Name, what(k.Args), r.Code, r.last())
			continue
		}
		if err := c.sameOutputs(k, ref); err != nil {
			c.Violation("output-"+k.Name, "setup %s %s: %v", k.Name, what(k.Args), err)
		}
		switch k.Name {
		case "p1n":
			if !bytes.Equal(mustRead("o.ph1"), srs(f.Power, oneBase()).Bytes()) {
				c.Violation("output-p1n", "setup p1n %s doesn't write the initial parameters of that power", what(k.Args))
			}
		case "p1t":
			if !bytes.Equal(mustRead("o.ph1"), srs(f.Power, f.B).Bytes()) {
				c.Violation("output-p1t", "setup p1t %s doesn't write the parameters of the file", what(k.Args))
			}
		case "p1c", "p2c":
			h := ""
			if k.Name == "p1c" {
				p, err := readP1("o.ph1")
				if err != nil || len(p.Recs) != f.K1+1 {
					c.Violation("output-p1c", "setup p1c: %v, or another number of contributions", err)
					continue
				}
				h = fmt.Sprintf("%x", p.Recs[f.K1].Hash)
			} else {
				p, err := readP2("o.ph2")
				if err != nil || len(p.Recs) != f.K2+1 {
					c.Violation("output-p2c", "setup p2c: %v, or another number of contributions", err)
					continue
				}
				h = fmt.Sprintf("%x", p.Recs[f.K2].Hash)
			}
			if !strings.Contains(strings.ToLower(r.Out+r.Err), h) {
				c.Violation("hash-"+k.Name, "setup %s %s doesn't show the hash %s of its contribution", k.Name, what(k.Args), h)
			}
		case "p2n":
			if err := sameFile("o.ph2", mustRead("o.ph2"), whole["0.ph2"]); err != nil {
				c.Violation("output-p2n", "setup p2n %s: %v", what(k.Args), err)
			}
		}
	}
	reset()

	// other numbers of arguments
	for _, k := range cmds {
		for n := 0; n <= 8; n++ {
			if n == len(k.Args) {
				continue
			}
			if c.P(1, 2) && !(n == len(k.Args)-1 || n == len(k.Args)+1) {
				continue
			}
			args := append([]string{k.Name}, k.Args...)
			for len(args) > n+1 {
				args = args[:len(args)-1]
			}
			for len(args) < n+1 {
				args = append(args, pick(c.Rng, []string{"x", "1", "", "o.ph1", "o.ph2"}))
			}
			out := ""
			if k.Main >= 0 && k.Main+1 < len(args) {
				out = args[k.Main+1]
			}
			refuse(fmt.Sprintf("%d arguments", n), out, args...)
		}
	}
	// unknown commands
	for _, n := range []string{"p1x", "p3n", "contribute", "keyss", "p2"} {
		refuse("unknown command", "", n, "a.ph1", "o.ph1")
	}

	// arguments in another order
	swap := func(name string, i, j int, out string) {
		k := byName[name]
		if k.Args[i] == k.Args[j] {
			return
		}
		a := append([]string{}, k.Args...)
		a[i], a[j] = a[j], a[i]
		refuse("arguments exchanged", out, append([]string{name}, a...)...)
	}
	swap("p1n", 0, 1, "")
	swap("p1vt", 0, 1, "")
	swap("p2v", 0, 1, "")
	swap("p1c", 0, 1, "")
	swap("p2c", 0, 1, "")
	if c.P(1, 3) {
		swap("p2n", 0, 1, "o.ph2")
		swap("p2n", 1, 2, "")
	}
	if c.P(1, 3) {
		swap("p2np", 0, 2, "")
	}

	// numbers
	bad := []string{"abc", "", "1.5", "0x10", "-1", "0", "27", "28", "29", "64", "128", "255", "256", "257", "258", "512", "513", "65537", "4294967296", "4294967297", "18446744073709551615", "18446744073709551617", "9223372036854775807", "9223372036854775809", "-9223372036854775808", "-255", "-254", "-4294967295", "1e1", "1 ", " 1", "1,0", "1_0", "0b1", "ten", "١", "NaN", "Inf", "3.0", "2\x00", "1\n"}
	dashes := func(s string) []string {
		// a negative number has to be protected from the parser of flags
		if strings.HasPrefix(s, "-") {
			return []string{"--", s}
		}
		return []string{s}
	}
	for i := 0; i < 16; i++ {
		s := pick(c.Rng, bad)
		if strings.Contains(s, "\x00") {
			continue
		}
		refuse("power "+s, "o.ph1", append(append([]string{"p1n"}, dashes(s)...), "o.ph1")...)
	}
	c.largePowers()
	// a source of a larger power
	src := f.Power + 1 + c.IntN(2)
	t := srs(src, f.B)
	whole["big"] = ppotBytes(c.Rng, t)
	reset()
	for out := 1; out <= src; out++ {
		if !c.P(1, 2) {
			continue
		}
		r := c.cli("p1t", "big", "o.ph1", fmt.Sprint(src), fmt.Sprint(out))
		c.Eval(fmt.Sprint(c.Case, "p1t", src, out), true)
		if r.Code != 0 {
			c.Violation("failed-p1t", "setup p1t big o.ph1 %d %d exits with %d (%s)", src, out, r.Code, r.last())
		} else if !bytes.Equal(mustRead("o.ph1"), srs(out, f.B).Bytes()) {
			c.Violation("output-p1t", "setup p1t big o.ph1 %d %d doesn't write the prefix of the parameters", src, out)
		}
		reset()
	}
	for i := 0; i < 16; i++ {
		in, out := fmt.Sprint(src), fmt.Sprint(1+c.IntN(src))
		switch c.IntN(5) {
		case 0:
			out = fmt.Sprint(src + 1 + c.IntN(3))
		case 1:
			out = pick(c.Rng, bad)
		case 2:
			in = pick(c.Rng, []string{"29", "30", "64", "128", "255", "256", "300", fmt.Sprint(256 + src), fmt.Sprint(512 + src), fmt.Sprint(int64(1)<<32 + int64(src)), "1099511627776", "9223372036854775807", "-1", fmt.Sprint(src - 256), "0"})
		case 3:
			out = fmt.Sprint(256*(1+c.IntN(3)) + atoi(out))
		case 4:
			in, out = fmt.Sprint(256+src), fmt.Sprint(256+atoi(out))
		}
		if c.P(1, 6) {
			in = pick(c.Rng, []string{"abc", "", "1.5", "0x3", "2e0", "x" + in})
		}
		if strings.Contains(out, "\x00") {
			continue
		}
		args := []string{"p1t"}
		if strings.HasPrefix(in, "-") || strings.HasPrefix(out, "-") {
			args = append(args, "--")
		}
		refuse("powers "+in+" and "+out, "o.ph1", append(args, "big", "o.ph1", in, out)...)
	}
	// the numbers of p2np
	np := byName["p2np"]
	for i := 0; i < 5; i++ {
		a := append([]string{}, np.Args...)
		j := 3 + c.IntN(3)
		why := ""
		v := ""
		switch c.IntN(3) {
		case 0:
			v = pick(c.Rng, []string{"abc", "", "1.5", "0x10", "1e3", "1 ", "99999999999999999999", a[j] + "x", "x" + a[j]})
			why = "not a number"
		case 1:
			j = 3
			n := int64(f.NC)
			v = fmt.Sprint(pick(c.Rng, []int64{n + 1, n - 1, 0, -1, n + 256, n + 1<<32, n * 2, 1 << 20}))
			why = "another number of constraints"
		case 2:
			j = 4
			v = fmt.Sprint(pick(c.Rng, []int{f.NR + 1, f.NR + f.BS, 0, -1}))
			why = "another number of stored constraints"
		}
		if v == a[j] {
			continue
		}
		a[j] = v
		if strings.HasPrefix(v, "-") {
			a = append([]string{"--"}, a...)
		}
		refuse(why, "o.ph2", append([]string{"p2np"}, a...)...)
	}

	// circuits around the size of the SRS
	if c.P(1, 2) {
		c.circuitSizes(f, whole, refuse)
	}
	reset()

	// outputs that can't be created
	os.Mkdir("dir", 0755)
	for _, k := range cmds {
		if k.Main < 0 || k.Slow && !c.P(1, 3) {
			continue
		}
		a := k.swapArg(k.Main, pick(c.Rng, []string{"nowhere/o", "dir", "dir/", "", "a.ph1/o", strings.Repeat("x", 300)}))
		refuse("output can't be created", "", append([]string{k.Name}, a...)...)
		os.Mkdir("dir", 0755)
	}
	reset()
	for _, o := range []string{"pk", "vk"} {
		if c.P(1, 3) {
			os.Remove(o)
			os.Mkdir(o, 0755)
			r := c.cli("key", f.Ph2)
			c.Eval(fmt.Sprint(c.Case, "key", o, "directory"), true)
			if r.Code == 0 {
				c.Violation("accepted-key", "setup key exits with 0 where %s can't be written", o)
			}
			reset()
		}
	}
	if c.P(1, 3) {
		o := "O." + pick(c.Rng, splitParts) + ".save"
		os.Mkdir(o, 0755)
		r := c.cli("keys", f.Ph2, "O")
		c.Eval(fmt.Sprint(c.Case, "keys", o, "directory"), true)
		if r.Code == 0 {
			c.Violation("accepted-keys", "setup keys exits with 0 where %s can't be written", o)
		}
		reset()
	}
	if c.Bool() {
		os.Remove("S.sol")
		os.Mkdir("S.sol", 0755)
		r := c.cli("sol", "S")
		c.Eval(fmt.Sprint(c.Case, "sol", "directory"), true)
		if r.Code == 0 {
			c.Violation("accepted-sol", "setup sol exits with 0 where S.sol can't be written")
		}
		reset()
	}

	// exit status of the library's errors
	for _, k := range cmds {
		for _, in := range k.Inputs {
			if foreign(in) && !c.P(1, 6) || k.Slow && !c.P(1, 3) {
				continue
			}
			b := whole[in]
			n := 3
			if k.Slow {
				n = 1
			}
			for i := 0; i < n; i++ {
				m := append([]byte{}, b...)
				desc := ""
				switch {
				case foreign(in) || c.P(1, 4):
					m = nil
					desc = "missing"
				case c.P(1, 3) || in == "evals" || in == "S.vk.save":
					m = m[:c.IntN(len(m))]
					desc = fmt.Sprintf("cut to %d bytes", len(m))
				default:
					// points only: the header's counts would shift the tables
					at := len(m) - 1 - c.IntN(len(m)/2)
					m[at] ^= 1 << c.IntN(8)
					desc = fmt.Sprintf("changed at %d", at)
				}
				os.Remove(in)
				if m != nil {
					mustWrite(in, m)
				}
				ins := snap(k.Inputs)
				var err error
				lib := "succeeds"
				if foreign(in) {
					err = fmt.Errorf("an input is missing")
				} else {
					err = k.api()
				}
				if err != nil {
					lib = "fails: " + strings.SplitN(err.Error(), "\n", 2)[0]
				}
				restore(ins)
				r := c.cli(append([]string{k.Name}, k.Args...)...)
				c.Eval(fmt.Sprint(c.Case, k.Name, in, desc), true)
				if err != nil {
					c.Count("errors_of_the_library", 1)
				}
				if (err == nil) != (r.Code == 0) {
					c.Violation("status-"+k.Name, "setup %s %s, %s %s: exit %d (%s), but the library %s", k.Name, what(k.Args), in, desc, r.Code, r.last(), lib)
				}
				reset()
			}
		}
	}
	c.Sample(map[string]any{"power": f.Power, "contributions": []int{f.K1, f.K2}, "circuit": f.Circ.Name})
}

// largePowers: the largest power starts to write its output, where the file
// size limit stops it; nothing above does
func (c *Ctx) largePowers() {
	if !c.P(1, 2) {
		return
	}
	for _, p := range []int{26, 20 + c.IntN(6), 27, 28} {
		os.Remove("o.ph1")
		setFsize(1 << 20)
		r := c.cli("p1n", fmt.Sprint(p), "o.ph1")
		setFsize(fsizeMax)
		c.Eval(fmt.Sprint(c.Case, "p1n large", p), true)
		c.Count("large_powers", 1)
		started := strings.Contains(r.Err, syscall.EFBIG.Error())
		switch {
		case r.Code == 0:
			c.Violation("accepted-p1n", "setup p1n %d o.ph1 exits with 0 where files are limited to 1 MB", p)
		case p <= 26 && !started:
			c.Violation("failed-p1n", "setup p1n %d o.ph1 is refused: exit %d (%s)", p, r.Code, r.last())
		case p > 26 && started:
			c.Violation("accepted-p1n", "setup p1n %d o.ph1 isn't refused: exit %d (%s)", p, r.Code, r.last())
		}
		os.Remove("o.ph1")
	}
}

func (c *Ctx) circuitSizes(f *Fix, whole map[string][]byte, refuse func(why, out string, args ...string)) {
	n := 1 << f.Power
	for _, cons := range []int{n, n + 1, pick(c.Rng, []int{n - 1, n + 2, 2 * n, 2*n + 1, 3 * n})} {
		if cons < 1 {
			continue
		}
		k := rawCirc(rawOpts{pub: 2, sec: 1 + c.IntN(3), internal: 1 + c.IntN(3), cons: cons, seed: c.Uint64(), style: c.IntN(4)})
		cs := k.write("sized")
		nc, nr := cs.GetNbConstraints(), cs.GetNbR1C()
		bs := 1 + c.IntN(nr)
		if err := k.Build().SplitDumpBinary("Sized", bs); err != nil {
			c.Abort("SplitDumpBinary: %v", err)
		}
		sized, _ := filepath.Glob("[Ss]ized*")
		for p, b := range snap(sized) {
			whole[p] = b
		}
		whole["sized"] = mustRead("sized")
		for _, args := range [][]string{
			{"p2n", "a.ph1", "sized", "o.ph2"},
			{"p2np", "a.ph1", "Sized", "o.ph2", fmt.Sprint(nc), fmt.Sprint(nr), fmt.Sprint(bs)},
		} {
			if nc > n {
				refuse(fmt.Sprintf("%d constraints with an SRS for %d", nc, n), "o.ph2", args...)
				continue
			}
			os.Remove("o.ph2")
			r := c.cli(args...)
			c.Eval(fmt.Sprint(c.Case, args, nc), true)
			c.Count("sizes_that_fit", 1)
			if r.Code != 0 {
				c.Violation("failed-"+args[0], "setup %v exits with %d (%s), with %d constraints and an SRS for %d", args, r.Code, r.last(), nc, n)
			} else if _, err := readP2("o.ph2"); err != nil {
				c.Violation("output-"+args[0], "setup %v: %v", args, err)
			}
			for _, o := range []string{"evals", "srs.lag"} {
				mustWrite(o, whole[o])
			}
		}
		for p := range whole {
			if strings.HasPrefix(p, "Sized") || p == "sized" {
				delete(whole, p)
				os.Remove(p)
			}
		}
	}
}
