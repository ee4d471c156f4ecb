package builder

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Built names the binaries made from /repo's working tree.
type Built struct {
	Worker string
	Tsh    string
	Sites  int
	Desc   []string // site number -> file:line
	TreeID string   // hash of the sources that were built
}

func env() []string {
	e := os.Environ()
	return append(e, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GO111MODULE=on", "GOWORK=off")
}

func run(dir string, args ...string) (string, error) {
	c := exec.Command(args[0], args[1:]...)
	c.Dir = dir
	c.Env = env()
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.String(), fmt.Errorf("%s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.String(), nil
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

// Build instruments and builds the code in repo. simDir is /verif/sim.
func Build(repo, simDir, outDir string) (*Built, error) {
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return nil, err
	}
	goroot, err := run(repo, "go", "env", "GOROOT")
	if err != nil {
		return nil, err
	}
	goroot = strings.TrimSpace(goroot)
	rep, err := stdOverlay(goroot, outDir)
	if err != nil {
		return nil, err
	}
	modb, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	module := ""
	for _, l := range strings.Split(string(modb), "\n") {
		if strings.HasPrefix(l, "module ") {
			module = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	list, err := run(repo, "go", "list", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Standard,Module", ".", "./transpiler", "./converters/bash", "./converters/batch")
	if err != nil {
		return nil, err
	}
	b := &Built{}
	dec := json.NewDecoder(strings.NewReader(list))
	var pkgs []pkgInfo
	for dec.More() {
		var p pkgInfo
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		if !p.Standard && p.Module != nil && p.Module.Path == module {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	h := sha256.New()
	for _, p := range pkgs {
		sort.Strings(p.GoFiles)
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				return nil, err
			}
			fmt.Fprintf(h, "%s %d\n", full, len(src))
			h.Write(src)
			text, err := instrument(full, string(src), module, b, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, module), "/"))
			if err != nil {
				return nil, err
			}
			dst := filepath.Join(outDir, fmt.Sprintf("src_%s_%s", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, module), "/", "_"), f))
			if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
				return nil, err
			}
			rep[full] = dst
		}
	}
	b.TreeID = fmt.Sprintf("%x", h.Sum(nil))[:16]
	for _, f := range []string{"proto.go", "rt.go", "fs.go"} {
		rep[filepath.Join(repo, "zzsim", f)] = filepath.Join(simDir, "zzsim", f)
	}
	wsrc, err := os.ReadFile(filepath.Join(simDir, "worker", "main.go.txt"))
	if err != nil {
		return nil, err
	}
	wdst := filepath.Join(outDir, "worker_main.go")
	if err := os.WriteFile(wdst, []byte(strings.ReplaceAll(string(wsrc), "MODULE", module)), 0o644); err != nil {
		return nil, err
	}
	rep[filepath.Join(repo, "zzworker", "main.go")] = wdst
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovPath := filepath.Join(outDir, "overlay.json")
	if err := os.WriteFile(ovPath, ov, 0o644); err != nil {
		return nil, err
	}
	b.Worker = filepath.Join(outDir, "worker")
	b.Tsh = filepath.Join(outDir, "tsh")
	common := []string{"go", "build", "-tags", "zzsim", "-overlay", ovPath, "-ldflags=-checklinkname=0", "-buildvcs=false"}
	if _, err := run(repo, append(append([]string{}, common...), "-o", b.Worker, "./zzworker")...); err != nil {
		return nil, err
	}
	if _, err := run(repo, append(append([]string{}, common...), "-o", b.Tsh, ".")...); err != nil {
		return nil, err
	}
	return b, nil
}

// instrument inserts a Tick call at every function entry and loop iteration.
// Nothing moves to another line, so positions in panics stay right.
func instrument(name, src, module string, b *Built, rel string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return "", err
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	add := func(body *ast.BlockStmt) {
		if body == nil {
			return
		}
		p := fset.Position(body.Lbrace)
		list = append(list, ins{p.Offset + 1, fmt.Sprintf("zzsim.Tick(%d);", b.Sites)})
		b.Desc = append(b.Desc, fmt.Sprintf("%s/%s:%d", rel, filepath.Base(name), p.Line))
		b.Sites++
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			add(x.Body)
		case *ast.FuncLit:
			add(x.Body)
		case *ast.ForStmt:
			add(x.Body)
		case *ast.RangeStmt:
			add(x.Body)
		case *ast.CaseClause:
			p := fset.Position(x.Colon)
			list = append(list, ins{p.Offset + 1, fmt.Sprintf("zzsim.Tick(%d);", b.Sites)})
			b.Desc = append(b.Desc, fmt.Sprintf("%s/%s:%d", rel, filepath.Base(name), p.Line))
			b.Sites++
		case *ast.IfStmt:
			add(x.Body)
			if e, ok := x.Else.(*ast.BlockStmt); ok {
				add(e)
			}
		}
		return true
	})
	nameEnd := fset.Position(f.Name.End()).Offset
	imp := fmt.Sprintf("; import zzsim %q", module+"/zzsim")
	if len(list) == 0 {
		imp = fmt.Sprintf("; import _ %q", module+"/zzsim")
	}
	list = append(list, ins{nameEnd, imp})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out strings.Builder
	last := 0
	for _, i := range list {
		out.WriteString(src[last:i.off])
		out.WriteString(i.text)
		last = i.off
	}
	out.WriteString(src[last:])
	return out.String(), nil
}
