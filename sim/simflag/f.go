// Package simflag: package flag whose command line is the simulated process's.
package simflag

import (
	"flag"

	os "github.com/hymkor/gmnlisp/zz_verif/simos"
)

type def struct {
	name, usage string
	set         func(fs *flag.FlagSet)
}

var defs []def
var fs *flag.FlagSet

func String(name, value, usage string) *string {
	p := new(string)
	*p = value
	defs = append(defs, def{name, usage, func(f *flag.FlagSet) { f.StringVar(p, name, value, usage) }})
	return p
}
func Bool(name string, value bool, usage string) *bool {
	p := new(bool)
	*p = value
	defs = append(defs, def{name, usage, func(f *flag.FlagSet) { f.BoolVar(p, name, value, usage) }})
	return p
}
func Int(name string, value int, usage string) *int {
	p := new(int)
	*p = value
	defs = append(defs, def{name, usage, func(f *flag.FlagSet) { f.IntVar(p, name, value, usage) }})
	return p
}
func StringVar(p *string, name, value, usage string) {
	defs = append(defs, def{name, usage, func(f *flag.FlagSet) { f.StringVar(p, name, value, usage) }})
}
func BoolVar(p *bool, name string, value bool, usage string) {
	defs = append(defs, def{name, usage, func(f *flag.FlagSet) { f.BoolVar(p, name, value, usage) }})
}

// Only registers which program's flags are parsed: both simulated programs
// live in one binary, and their flag names do not clash.
func Parse() {
	fs = flag.NewFlagSet("prog", flag.ContinueOnError)
	fs.SetOutput(os.Stderr)
	for _, d := range defs {
		d.set(fs)
	}
	if err := fs.Parse(os.Args[1:]); err != nil {
		os.Exit(2)
	}
}
func Args() []string { return fs.Args() }
func Arg(i int) string {
	return fs.Arg(i)
}
func NArg() int { return fs.NArg() }
