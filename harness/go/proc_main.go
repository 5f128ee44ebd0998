// Executes histories of library calls (spec/Process.tla) in one process.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"github.com/xaxys/bubbler/compiler"
	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/generator"
	"github.com/xaxys/bubbler/generator/gen"
)

type call struct {
	Op     string `json:"op"`
	Path   string `json:"path"`
	Text   string `json:"text"`
	Cwd    string `json:"cwd"`
	H      int    `json:"h"`
	O      int    `json:"o"`
	Target string `json:"target"`
	Out    string `json:"out"`
}

type option struct {
	Single, Relpath, Inner, Minimal, Decnum, Memcpy, Compat bool
	Unroll                                                  int
	Signext, Rmpath                                         string
}

type history struct {
	Calls []call   `json:"calls"`
	Opts  []option `json:"opts"`
}

type result struct {
	Panic string   `json:"panic,omitempty"`
	Err   string   `json:"err"`
	Warn  string   `json:"warn"`
	Units []string `json:"units,omitempty"`
	Opts  string   `json:"opts,omitempty"`
}

func text(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<28)
	enc := json.NewEncoder(os.Stdout)
	for in.Scan() {
		var h history
		if err := json.Unmarshal(in.Bytes(), &h); err != nil {
			panic(err)
		}
		var opts []*gen.GenOptions
		for _, o := range h.Opts {
			sx, err := gen.SignExtMethod(o.Signext)
			if err != nil {
				panic(err)
			}
			un, err := gen.LoopUnroll(o.Unroll)
			if err != nil {
				panic(err)
			}
			opts = append(opts, gen.NewGenOptions(gen.RemovePath(o.Rmpath), gen.RelativePath(o.Relpath), gen.SingleFile(o.Single), gen.InnerClass(o.Inner),
				gen.MinimalCode(o.Minimal), gen.DecimalNumber(o.Decnum), gen.MemoryCopy(o.Memcpy), gen.CompatibleMode(o.Compat), sx, un))
		}
		var handles [][]*definition.CompilationUnit
		var res []result
		for _, c := range h.Calls {
			res = append(res, run(c, opts, &handles))
		}
		enc.Encode(res)
	}
}

func run(c call, opts []*gen.GenOptions, handles *[][]*definition.CompilationUnit) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
			if c.Op == "compile" {
				*handles = append(*handles, nil)
			}
		}
	}()
	switch c.Op {
	case "edit":
		os.MkdirAll(filepath.Dir(c.Path), 0o755)
		if err := os.WriteFile(c.Path, []byte(c.Text), 0o644); err != nil {
			panic(err)
		}
	case "compile":
		if err := os.Chdir(c.Cwd); err != nil {
			panic(err)
		}
		units, err, warn := compiler.Compile(c.Path)
		r.Err, r.Warn = text(err), text(warn)
		for _, u := range units {
			r.Units = append(r.Units, u.UnitName.Path)
		}
		*handles = append(*handles, units)
	case "generate":
		err, warn := generator.Generate(c.Target, c.Out, opts[c.O-1], (*handles)[c.H-1]...)
		r.Err, r.Warn = text(err), text(warn)
		r.Opts = opts[c.O-1].String()
	}
	return
}
