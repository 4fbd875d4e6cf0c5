package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/xconnio/wampproto-go"
const zz = "internal/zzverif"

// overlayFiles maps paths inside the repository to harness sources.
func overlayFiles(repo, harness string) (map[string]string, error) {
	r := map[string]string{}
	err := filepath.Walk(harness, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, path)
		r[filepath.Join(repo, zz, rel)] = path
		return nil
	})
	return r, err
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
	return env
}

func goEnvCgo() []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1")
	return env
}

// modfile makes copies of go.mod and go.sum, so that the go command never
// writes to the repository.
func modfile(repo, dir string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

func writeOverlay(dir, name string, m map[string]string) (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": m})
	f := filepath.Join(dir, name)
	return f, os.WriteFile(f, b, 0o644)
}

func load(repo, harnessDir, tmp string, pats []string) (*Program, error) {
	ov, err := overlayFiles(repo, harnessDir)
	if err != nil {
		return nil, err
	}
	mf, err := modfile(repo, tmp)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: map[string][]byte{},
		BuildFlags: []string{"-modfile=" + mf}}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[dst] = b
	}
	ps := []string{"./" + zz + "/models", "fmt", "errors", "reflect", "encoding/base64", "github.com/fxamacker/cbor/v2",
		"github.com/vmihailenco/msgpack/v5", "encoding/json"}
	for _, h := range pats {
		ps = append(ps, "./"+zz+"/"+h)
	}
	pk, err := packages.Load(cfg, ps...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repoMod: repoMod, redirect: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	m := pr.pkgs[repoMod+"/"+zz+"/models"]
	if m == nil {
		return nil, fmt.Errorf("models package not loaded")
	}
	rr := m.Type("RandReader")
	if rr == nil {
		return nil, fmt.Errorf("model RandReader missing")
	}
	pr.randReader = rr.Type()
	for std, mod := range redirects {
		fn := m.Func(mod)
		if fn == nil {
			return nil, fmt.Errorf("model %s missing", mod)
		}
		pr.redirect[std] = fn
	}
	return pr, nil
}

// harnessFuncs lists the harness functions of a property: Cxx_Name.
func harnessFuncs(pr *Program, pkgs []string, prop string) map[string][]*ssa.Function {
	r := map[string][]*ssa.Function{}
	for _, h := range pkgs {
		p := pr.pkgs[repoMod+"/"+zz+"/"+h]
		if p == nil {
			continue
		}
		for name, m := range p.Members {
			fn, ok := m.(*ssa.Function)
			if ok && strings.HasPrefix(name, prop+"_") && fn.Signature.Params().Len() == 0 {
				r[h] = append(r[h], fn)
			}
		}
		sort.Slice(r[h], func(i, j int) bool { return r[h][i].Name() < r[h][j].Name() })
	}
	return r
}

// propPackages finds the harness packages that have functions for prop,
// by scanning the sources.
func propPackages(harnessDir, prop string) ([]string, error) {
	ents, err := os.ReadDir(harnessDir)
	if err != nil {
		return nil, err
	}
	var r []string
	for _, e := range ents {
		if !e.IsDir() || e.Name() == "sym" || e.Name() == "models" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(harnessDir, e.Name(), "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			if strings.Contains(string(b), "\nfunc "+prop+"_") {
				r = append(r, e.Name())
				break
			}
		}
	}
	sort.Strings(r)
	return r, nil
}

// redirects sends standard-library functions to interpreted models.
var redirects = map[string]string{
	"errors.Is":                               "ErrorsIs",
	"crypto/rand.Read":                        "RandRead",
	"crypto/hmac.New":                         "HmacNew",
	"crypto/sha256.New":                       "Sha256New",
	"crypto/sha256.Sum256":                    "Sha256Sum256",
	"golang.org/x/crypto/pbkdf2.Key":          "Pbkdf2Key",
	"crypto/ed25519.NewKeyFromSeed":           "EdNewKeyFromSeed",
	"crypto/ed25519.GenerateKey":              "EdGenerateKey",
	"crypto/ed25519.Sign":                     "EdSign",
	"crypto/ed25519.Verify":                   "EdVerify",
	"(crypto/ed25519.PrivateKey).Public":      "EdPublic",
	"(crypto/ed25519.PrivateKey).Seed":        "EdSeed",
	"(crypto/ed25519.PrivateKey).Sign":        "EdSignM",
	"golang.org/x/crypto/nacl/sign.Open":      "NaclOpen",
	"golang.org/x/crypto/nacl/sign.Sign":      "NaclSign",
	"golang.org/x/crypto/ed25519.Sign":        "EdSign",
	"golang.org/x/crypto/ed25519.Verify":      "EdVerify",
	"golang.org/x/crypto/ed25519.GenerateKey": "EdGenerateKey",
}
