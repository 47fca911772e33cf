package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = Check{"effect analysis over the call graph: who may call what outside the repository", checkC22}
}

// packages of the standard library none of whose functions has an effect on
// files, processes, the network or the environment
var harmless = map[string]bool{
	"bufio": true, "bytes": true, "cmp": true, "context": true, "embed": true, "errors": true, "expvar": false,
	"flag": true, "fmt": true, "html": true, "io": true, "io/fs": true, "iter": true, "log": true, "maps": true, "math": true,
	"mime": true, "path": true, "reflect": true, "regexp": true, "runtime": true, "runtime/debug": false, "slices": true,
	"sort": true, "strconv": true, "strings": true, "sync": true, "sync/atomic": true, "text/scanner": true,
	"text/tabwriter": true, "text/template": true, "time": true, "unicode": true, "unsafe": true, "os/signal": true,
	"path/filepath": true, "regexp/syntax": true, "unique": true, "weak": true,
}

var harmlessUnder = []string{"container/", "encoding", "hash", "math/", "unicode/", "compress/", "text/template/", "html/template", "crypto/", "index/"}

// what of package os only looks
var looks = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`Open ReadFile ReadDir Stat Lstat Readlink Getwd Getenv LookupEnv Environ ExpandEnv Expand
		Exit Getpid Getppid Getuid Geteuid Getgid Getegid Getgroups Getpagesize Hostname Executable UserHomeDir UserCacheDir
		UserConfigDir TempDir IsExist IsNotExist IsPermission IsTimeout IsPathSeparator NewSyscallError SameFile DirFS OpenRoot
		File.Read File.ReadAt File.ReadFrom File.ReadDir File.Readdir File.Readdirnames File.Seek File.Stat File.Close File.Name File.Fd
		File.Write File.WriteString File.WriteTo File.WriteAt File.Sync File.SetDeadline File.SetReadDeadline File.SetWriteDeadline
		File.SyscallConn PathError.Error PathError.Unwrap PathError.Timeout LinkError.Error SyscallError.Error SyscallError.Unwrap
		FileMode.String FileMode.IsDir FileMode.IsRegular FileMode.Perm FileMode.Type Signal.String`) {
		looks[n] = true
	}
}

func methodName(f *ssa.Function) (pkg, name string) {
	o, _ := f.Object().(*types.Func)
	if o == nil || o.Pkg() == nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path(), f.Name()
		}
		return "", f.Name()
	}
	name = o.Name()
	if sig, ok := o.Type().(*types.Signature); ok && sig.Recv() != nil {
		t := sig.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			name = n.Obj().Name() + "." + name
		}
	}
	return o.Pkg().Path(), name
}

func isStd(pkg string) bool { return !strings.Contains(strings.SplitN(pkg, "/", 2)[0], ".") }

// effectOf says what calling a function outside the repository may do, "" for nothing that counts.
func (P *Prog) effectOf(f *ssa.Function, args []ssa.Value) string {
	pkg, name := methodName(f)
	switch {
	case pkg == "":
		return ""
	case name == "init":
		return ""
	case pkg == "os":
		if looks[name] {
			return ""
		}
		if name == "OpenFile" && len(args) == 3 {
			if c, ok := args[1].(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
				return ""
			}
			return "opens a file for more than reading"
		}
		return "changes a file, a process or the environment"
	case pkg == "io/ioutil":
		switch name {
		case "ReadFile", "ReadAll", "ReadDir", "NopCloser":
			return ""
		}
		return "writes a file"
	case pkg == "os/exec" || pkg == "plugin" || pkg == "syscall" || strings.HasPrefix(pkg, "golang.org/x/sys"):
		if pkg == "os/exec" && name == "LookPath" {
			return ""
		}
		return "starts a process or calls the system"
	case pkg == "net" || strings.HasPrefix(pkg, "net/") && pkg != "net/url" && pkg != "net/netip" && pkg != "net/textproto" && pkg != "net/mail" || pkg == "log/syslog" || pkg == "net/rpc":
		return "uses the network"
	case pkg == "os/user":
		return ""
	case pkg == "net/url" || pkg == "net/netip" || pkg == "net/textproto" || pkg == "net/mail":
		return ""
	case pkg == "runtime/debug":
		switch name {
		case "WriteHeapDump", "SetCrashOutput":
			return "writes a file"
		}
		return ""
	case strings.HasPrefix(pkg, "runtime/"):
		return "" // profiles go to a writer that is given
	case isStd(pkg):
		if harmless[pkg] {
			return ""
		}
		for _, p := range harmlessUnder {
			if strings.HasPrefix(pkg, p) {
				return ""
			}
		}
		return "is not known to be without effect"
	case pkg == "github.com/spf13/cobra":
		if strings.HasPrefix(name, "Command.Gen") && strings.HasSuffix(name, "File") || strings.HasPrefix(name, "Command.GenMan") {
			return "writes a file"
		}
		return ""
	case pkg == "github.com/spf13/cobra/doc":
		return "writes files"
	case pkg == "github.com/spf13/pflag", pkg == "github.com/dustin/go-humanize":
		return ""
	}
	return "is not known to be without effect"
}

type effectSite struct {
	in  ssa.Instruction
	f   *ssa.Function // that does it
	g   *ssa.Function // that is called
	why string
}

// running: the functions the program can run, with one caller each.
func (P *Prog) running() (order []*ssa.Function, from map[*ssa.Function]*ssa.Function) {
	from = map[*ssa.Function]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var add func(f, by *ssa.Function)
	conv := map[types.Type]bool{}
	add = func(f, by *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		from[f] = by
		if !P.inRepo(f) && f.Synthetic == "" {
			return
		}
		order = append(order, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && !conv[mi.X.Type()] {
					conv[mi.X.Type()] = true
					ms := P.SSA.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if o := ms.At(i).Obj(); o.Pkg() != nil && (o.Pkg().Path() == P.Module || strings.HasPrefix(o.Pkg().Path(), P.Module+"/")) {
							add(P.SSA.MethodValue(ms.At(i)), f)
						}
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							add(g, f)
						}
					}
				}
			}
		}
	}
	add(P.fn("", "init"), nil)
	add(P.fn("", "main"), nil)
	return order, from
}

func checkC22(P *Prog, r *Report) {
	r.rule("no-effect", "every function outside the repository that the program can call only reads, computes or prints", 40)
	r.rule("whole-program", "the program has no code that this analysis cannot see", 1)
	if P.fn("", "main") == nil {
		r.bad("whole-program", "main", "-", "the program has no main function")
		return
	}
	order, from := P.running()
	cgo := false
	for _, p := range P.Pkgs {
		for _, f := range p.OtherFiles {
			cgo = true
			r.bad("whole-program", "file "+f[strings.LastIndexByte(f, '/')+1:], f, "the program has a file that is not Go")
		}
		if _, ok := p.Imports["C"]; ok {
			cgo = true
			r.bad("whole-program", "cgo in "+p.PkgPath, "-", "the program calls C")
		}
	}
	for _, f := range order {
		if f.Blocks == nil && f.Synthetic == "" {
			cgo = true
			r.bad("whole-program", fname(f), P.pos(f.Pos()), "%s has no body in Go", fname(f))
		}
	}
	if !cgo {
		r.ok("whole-program", "main")
	}
	chain := func(f *ssa.Function) string {
		var l []string
		for g := f; g != nil; g = from[g] {
			l = append(l, fname(g))
		}
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return strings.Join(l, " > ")
	}
	for _, f := range order {
		r.use(f)
		r.paths++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				var args []ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee, args = c.Common().Value, c.Common().Args
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok || P.inRepo(g) {
						continue
					}
					if g.Synthetic != "" {
						if o, ok := g.Object().(*types.Func); ok {
							if real := P.SSA.FuncValue(o); real != nil {
								g = real
							}
						}
					}
					if P.inRepo(g) {
						continue
					}
					a := args
					if *op != callee {
						a = nil
					}
					why := P.effectOf(g, a)
					name := fname(g)
					if why == "" {
						r.ok("no-effect", fname(f)+" calls "+name)
					} else {
						r.bad("no-effect", fname(f)+" calls "+name, P.ipos(in), "%s %s; the program reaches it through %s", name, why, chain(f))
					}
				}
				// methods that are only known by an interface
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					m := c.Common().Method
					if m.Pkg() != nil && (strings.HasPrefix(m.Pkg().Path(), "net") || m.Pkg().Path() == "os/exec") {
						r.bad("no-effect", fname(f)+" calls "+m.FullName(), P.ipos(in), "%s uses the network; the program reaches it through %s", m.FullName(), chain(f))
					}
				}
			}
		}
	}
	var ext []string
	seen := map[string]bool{}
	for _, p := range P.Pkgs {
		for path := range p.Imports {
			if !seen[path] {
				seen[path] = true
				ext = append(ext, path)
			}
		}
	}
	sort.Strings(ext)
	r.notes = append(r.notes, "imported packages: "+strings.Join(ext, " "))
}
