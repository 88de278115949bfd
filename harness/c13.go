package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/jhump/gopoet"
)

func init() {
	checks["C13"] = &CheckDef{
		Boost:  2,
		Deep:   2,
		Run:    runC13,
		Unpriv: true,
		Rule:   "a case is a list of files written below a root that holds other content, with or without a planted failure; it is distinct by root, paths, earlier contents, faults and generated bytes",
		Needs: map[string]int64{"files_checked": 1000, "dirs_created": 300, "replaced_longer": 100, "replaced_shorter": 100, "replaced_same_length": 50, "gopath_first_of_many": 50,
			"gopath_single": 50, "gopath_unset_or_empty": 50, "failures_reported": 200, "fault_dir_is_file": 20, "fault_file_is_dir": 20, "fault_read_only": 20, "fault_no_dir_permission": 20,
			"fault_disk_full": 20, "fault_name_too_long": 20, "fault_format": 20, "bystanders_unchanged": 5000, "tree_entries_compared": 5000, "root_relative": 50, "root_missing": 50, "root_symlink": 50, "names_rejected": 100, "names_accepted": 100},
		Assumptions: []string{"import paths that lead out of the root (\"..\") are not generated", "a GOPATH whose first entry is empty is not generated"},
	}
}

// node is one entry of a directory tree.
type tnode struct {
	kind string // dir, file, link
	mode fs.FileMode
	data string // hash of a file, target of a link
	size int64
}

func (n tnode) String() string {
	return fmt.Sprintf("%s %v size %d %s", n.kind, n.mode, n.size, n.data)
}

// snapshot reads the tree below dir, without following links.
func snapshot(dir string) map[string]tnode {
	res := map[string]tnode{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			bug("walking %s: %v", p, err)
		}
		rel, _ := filepath.Rel(dir, p)
		fi, err := os.Lstat(p)
		if err != nil {
			bug("%v", err)
		}
		n := tnode{mode: fi.Mode()}
		switch {
		case fi.IsDir():
			n.kind = "dir"
		case fi.Mode()&fs.ModeSymlink != 0:
			n.kind = "link"
			n.data, _ = os.Readlink(p)
		default:
			n.kind = "file"
			b, err := os.ReadFile(p)
			if err != nil {
				bug("%v", err)
			}
			n.size = int64(len(b))
			n.data = fmt.Sprintf("%x", sha256.Sum256(b))[:16]
		}
		res[rel] = n
		return nil
	})
	if err != nil {
		bug("%v", err)
	}
	return res
}

func openFDs() int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range ents {
		// the runtime opens descriptors for polling the first time they are
		// needed, so only those that refer to files count
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "/") && !strings.HasPrefix(l, "/proc/") {
			n++
		}
	}
	return n
}

// scratch makes a directory for one case.
// oddRoots are directories with names that mean something elsewhere.
var oddRoots = []string{"$HOME", "${HOME}/x", "~", "~root", "~/x", "%20", "%s%d", "a\\b", "$VERIF_ODD", "*", "[a]", "\"q\"", "ROOT", "root ", " root", "-r", "世界", "a;b", "a&b", "#x", "vendor.go", "...", "vendor", "src", "internal", "go.mod", "a\nb"}

func (k *Case) scratch() (string, func()) {
	base := os.Getenv("VH_SCRATCH")
	if base == "" {
		bug("no scratch directory")
	}
	dir, err := os.MkdirTemp(base, "case")
	if err != nil {
		bug("%v", err)
	}
	return dir, func() {
		_ = os.Chdir(base)
		_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				_ = os.Chmod(p, 0700)
			}
			return nil
		})
		if err := os.RemoveAll(dir); err != nil {
			bug("%v", err)
		}
	}
}

func mustDo(err error) {
	if err != nil {
		bug("preparing the scratch directory: %v", err)
	}
}

var diskPaths = []string{"a", "a/b", "a/b/c/d", "example.com/x/y.z", "", "世界/ü", "a//b", "a/../b", "./c", "d/", "with space/x", "/abs/p", "a/./b", "C:/x", "%s/%d", "a.go", "vendor/a", "src/a", "pkg/mod/a", "x/internal/y", "main", "internal", "A/b", "$HOME/x", "~", "~/a", "...", "a*b", "a\\b", "testdata/_x/.y"}

func runC13(c *Ctx) {
	c.Run("names", c.N(600, 6000), func(k *Case) { k.fileNames() })
	c.Run("root", c.N(900, 25000), func(k *Case) { k.onDisk(false) })
	c.Run("gopath", c.N(500, 12000), func(k *Case) { k.onDisk(true) })
	c.Run("no gopath", c.N(100, 1000), func(k *Case) { k.noGopath() })
}

// diskFile is one file to write.
type diskFile struct {
	gf   *gopoet.GoFile
	rel  string // below the root
	want []byte
}

func (k *Case) diskFiles(n int) []diskFile {
	var fs []diskFile
	for j := 0; j < n; j++ {
		seed := k.R.Uint64()
		mk := func() *gopoet.GoFile {
			r := newRng(seed, "C13", "f", j)
			gf := gopoet.NewGoFile(Pick(r, fileNames), Pick(r, diskPaths), OneOf(r, "a", "b", "main"))
			if r.Chance(5) {
				// a deep or long path
				var el []string
				size := r.Between(100, 2500)
				for len(strings.Join(el, "/")) < size {
					el = append(el, strings.Repeat(OneOf(r, "d", "x", "a.b", "é"), OneOf(r, 1, 2, 10, 60)))
				}
				gf = gopoet.NewGoFile(OneOf(r, "f.go", strings.Repeat("n", r.Between(50, 250))+".go"), strings.Join(el, "/"), "a")
			}
			if j > 0 && r.Chance(25) {
				// another file in the directory, or even the same file
				gf = gopoet.NewGoFile(OneOf(r, fs[0].gf.Name, "other.go"), fs[0].gf.Package().ImportPath, "a")
			}
			gf.FileComment = OneOf(r, "", "file comment")
			for i := r.IntN(4); i > 0; i-- {
				name := fmt.Sprintf("N%d", i)
				switch r.IntN(3) {
				case 0:
					gf.AddConst(gopoet.NewConst(name).Initialize("%d", r.IntN(1000)))
				case 1:
					gf.AddVar(gopoet.NewVar(name).SetType(gopoet.NamedType(gopoet.NewSymbol("q/q", "T"))))
				case 2:
					gf.AddElement(gopoet.NewFunc(name).Println(strings.Repeat("  x = 1\n", r.IntN(30))))
				}
			}
			if r.Chance(2) {
				gf.AddElement(gopoet.NewFunc("big").Print(strings.Repeat("  x = 1\n", 40000)))
			}
			if n := r.HugeText(); n > 0 {
				gf.AddElement(gopoet.NewFunc("huge").Print(strings.Repeat("\tx = 12\n", n/8)))
			}
			return gf
		}
		gf, twin := mk(), mk()
		var b bytes.Buffer
		if err := gopoet.WriteGoFile(&b, twin); err != nil {
			k.Failf("WriteGoFile: %v\n%s", err, unformatted(err))
		}
		rel := filepath.Join(filepath.FromSlash(gf.Package().ImportPath), gf.Name)
		rel = strings.TrimPrefix(rel, "/")
		fs = append(fs, diskFile{gf, rel, b.Bytes()})
	}
	return fs
}

// populate puts bystanders into dir.
func (k *Case) populate(dir string) {
	mustDo(os.MkdirAll(dir, 0777))
	for i := k.R.IntN(6); i >= 0; i-- {
		p := filepath.Join(dir, OneOf(k.R, "a", "b", "example.com", "x.go", "zz", ".hidden", "a.go.tmp"))
		if k.R.Chance(40) {
			p = filepath.Join(p, OneOf(k.R, "x.go", "b", "x.go~", "c.txt"))
		}
		if k.R.Chance(60) {
			if os.MkdirAll(filepath.Dir(p), 0777) == nil {
				if _, err := os.Lstat(p); err != nil {
					mustDo(os.WriteFile(p, []byte(strings.Repeat("bystander ", k.R.IntN(200))), 0666))
				}
			}
		} else {
			_ = os.MkdirAll(p, 0777)
		}
	}
}

func (k *Case) onDisk(gopath bool) {
	r := k.R
	top, done := k.scratch()
	defer done()
	mustDo(os.MkdirAll(filepath.Join(top, "home", "go", "src"), 0777))
	os.Setenv("HOME", filepath.Join(top, "home"))
	cwd := filepath.Join(top, "cwd")
	k.populate(cwd)
	mustDo(os.Chdir(cwd))
	files := k.diskFiles(r.Between(1, 3))
	var gfs []*gopoet.GoFile
	for _, f := range files {
		gfs = append(gfs, f.gf)
	}

	deep := false
	for _, f := range files {
		if len(f.rel) > 300 {
			deep = true
			k.Count("deep_paths", 1)
		}
	}

	// the root, next to other things
	real := filepath.Join(top, "out", OneOf(r, "root", "the root", "r/o/o/t", "gp.v1", Pick(r, oddRoots), Pick(r, oddRoots)))
	k.populate(filepath.Join(top, "out"))
	if fi, err := os.Lstat(filepath.Dir(real)); err == nil && !fi.IsDir() {
		bug("unexpected file")
	}
	missing := r.Chance(25)
	if !missing {
		k.populate(real)
	} else {
		k.Count("root_missing", 1)
	}
	root := real
	switch {
	case r.Chance(15):
		root = Pick(r, oddRoots)
		real = filepath.Join(cwd, root)
		if !missing {
			k.populate(real)
		}
		k.Count("root_odd", 1)
	case r.Chance(20) || deep && r.Chance(50):
		rel, err := filepath.Rel(cwd, real)
		mustDo(err)
		root = rel
		k.Count("root_relative", 1)
	case r.Chance(10):
		real = cwd
		root = OneOf(r, ".", "./", "../cwd")
		if !gopath && !anyAbs(files) && r.Chance(30) {
			root = ""
		}
		k.Count("root_relative", 1)
	case r.Chance(15) && !missing:
		mustDo(os.Symlink(real, filepath.Join(top, "lnk")))
		root = filepath.Join(top, "lnk")
		k.Count("root_symlink", 1)
	case r.Chance(15):
		root += OneOf(r, "/", "//", "/.", "/x/..")
	}
	env := root
	if gopath {
		if r.Chance(60) {
			var more []string
			for i := r.Between(1, 3); i > 0; i-- {
				d := filepath.Join(top, fmt.Sprintf("gp%d", i))
				if r.Chance(50) {
					k.populate(d)
				}
				more = append(more, d)
			}
			if r.Chance(10) {
				more = append(more, "")
			}
			env += ":" + strings.Join(more, ":")
			k.Count("gopath_first_of_many", 1)
		} else {
			k.Count("gopath_single", 1)
		}
	}

	// earlier contents
	seen := map[string]bool{}
	for _, f := range files {
		p := filepath.Join(real, f.rel)
		if seen[p] || !r.Chance(45) {
			continue
		}
		seen[p] = true
		if os.MkdirAll(filepath.Dir(p), 0777) != nil {
			continue
		}
		if fi, err := os.Lstat(p); err == nil && fi.IsDir() {
			continue
		}
		var old []byte
		switch r.IntN(6) {
		case 0:
			old = append(append(old, f.want...), strings.Repeat("// leftover\n", r.Between(1, 1000))...)
			k.Count("replaced_longer", 1)
		case 1:
			old = bytes.Repeat([]byte("z"), len(f.want)+r.Between(1, 9))
			k.Count("replaced_longer", 1)
		case 2:
			old = f.want[:r.IntN(len(f.want))]
			k.Count("replaced_shorter", 1)
		case 3:
			k.Count("replaced_shorter", 1) // empty
		case 4:
			old = append(old, f.want...)
			k.Count("replaced_same_length", 1)
		case 5:
			old = bytes.Repeat([]byte("y"), len(f.want))
			k.Count("replaced_same_length", 1)
		}
		mustDo(os.WriteFile(p, old, OneOf[fs.FileMode](r, 0666, 0600, 0644, 0777)))
	}

	// obstacles: some in the way by chance, some planted
	planted := ""
	bad := -1
	if r.Chance(45) {
		bad = r.IntN(len(files))
		planted = k.obstacle(real, files, bad)
	}

	// what must happen, from the tree as it is: the first file that cannot be
	// written ends the call
	fails, why := len(files), ""
	wantErr := error(nil)
	for j, f := range files {
		if w, e := blocked(real, f.rel, files[:j]); w != "" {
			fails, why, wantErr = j, w, e
			if j == bad && planted == "format" {
				why, wantErr = "several", nil
			}
			break
		}
		if j == bad && planted == "format" {
			fails, why = j, planted
			break
		}
	}
	before := snapshot(top)
	fds := openFDs()
	var err error
	if gopath {
		os.Setenv("GOPATH", env)
		err = gopoet.WriteGoFilesToGoPath(gfs...)
		os.Unsetenv("GOPATH")
	} else {
		err = gopoet.WriteGoFilesToFileSystem(root, gfs...)
	}
	after0 := openFDs()
	after := snapshot(top)
	desc := fmt.Sprintf("root %q (GOPATH %v), files:", env, gopath)
	for _, f := range files {
		desc += " " + f.rel
	}
	desc += fmt.Sprintf("; obstacle: %q at %d", why, fails)

	if fds >= 0 && after0 != fds {
		k.Failf("%s: %d files are open after the call, %d before", desc, after0, fds)
	}
	if fails < len(files) {
		if err == nil {
			k.Failf("%s: the failure is not reported", desc)
		}
		k.Count("failures_reported", 1)
		k.Count("fault_"+why, 1)
		// the device that stands for a full disk cannot be truncated, either
		if wantErr != nil && !errors.Is(err, wantErr) && !(why == "disk_full" && errors.Is(err, syscall.EINVAL)) {
			k.Failf("%s: reported as %v, want %v", desc, err, wantErr)
		}
		if why == "format" {
			var fe *gopoet.FormatError
			if !errors.As(err, &fe) {
				k.Failf("%s: reported as %T %v, want a format error", desc, err, err)
			}
		}
	} else if err != nil {
		k.Failf("%s: nothing is in the way but the call fails: %v", desc, err)
	}

	// expected tree
	rootRel, rerr := filepath.Rel(top, real)
	mustDo(rerr)
	want := map[string][]byte{}
	free := map[string]bool{} // paths that may be anything
	newDirs := map[string]bool{}
	for j, f := range files {
		if j > fails {
			break
		}
		p := filepath.Join(rootRel, f.rel)
		for d := filepath.Dir(p); d != "."; d = filepath.Dir(d) {
			newDirs[d] = true
		}
		if j == fails {
			free[p] = true
			delete(want, p)
			break
		}
		want[p] = f.want
		delete(free, p)
	}
	var paths []string
	for p := range before {
		paths = append(paths, p)
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		k.Count("tree_entries_compared", 1)
		b, hadB := before[p]
		a, hasA := after[p]
		if free[p] && (!hadB || b.kind == "file") {
			continue
		}
		if w, ok := want[p]; ok && b.kind != "link" {
			if !hasA || a.kind != "file" {
				k.Failf("%s: there is no file %s", desc, p)
			}
			got, err := os.ReadFile(filepath.Join(top, p))
			mustDo(err)
			if !bytes.Equal(got, w) {
				k.Failf("%s: %s does not hold the generated bytes: %s", desc, p, firstDiff(string(w), string(got)))
			}
			k.Count("files_checked", 1)
			delete(want, p)
			continue
		}
		switch {
		case !hasA:
			k.Failf("%s: %s (%v) is gone", desc, p, b)
		case !hadB && newDirs[p]:
			if a.kind != "dir" {
				k.Failf("%s: %s is not a directory", desc, p)
			}
			k.Count("dirs_created", 1)
		case !hadB:
			k.Failf("%s: %s (%v) was created, which is not the place of any file", desc, p, a)
		case a != b:
			k.Failf("%s: %s changed from %v to %v", desc, p, b, a)
		default:
			k.Count("bystanders_unchanged", 1)
		}
	}
	for p := range want {
		if before[p].kind != "link" {
			k.Failf("%s: %s is missing", desc, p)
		}
	}
	k.Nontrivial(desc + fmt.Sprint(len(before)) + string(files[0].want))
	k.Sample("%s -> err=%v; %d entries before, %d after", desc, err, len(before), len(after))
}

func anyAbs(files []diskFile) bool {
	for _, f := range files {
		if strings.HasPrefix(f.gf.Package().ImportPath, "/") {
			return true
		}
	}
	return false
}

// obstacle puts something in the way of file bad.
func (k *Case) obstacle(real string, files []diskFile, bad int) string {
	r := k.R
	f := files[bad]
	p := filepath.Join(real, f.rel)
	what := OneOf(r, "dir_is_file", "file_is_dir", "read_only", "no_dir_permission", "disk_full", "name_too_long", "format", "dangling_link")
	exists := func(p string) bool { _, err := os.Lstat(p); return err == nil }
	switch what {
	case "dir_is_file":
		d := filepath.Dir(p)
		for d != real && r.Chance(40) {
			d = filepath.Dir(d)
		}
		if exists(d) || os.MkdirAll(filepath.Dir(d), 0777) != nil {
			return ""
		}
		mustDo(os.WriteFile(d, []byte("in the way"), 0666))
	case "file_is_dir":
		if exists(p) || os.MkdirAll(p, 0777) != nil {
			return ""
		}
	case "read_only":
		if os.MkdirAll(filepath.Dir(p), 0777) != nil {
			return ""
		}
		if fi, err := os.Lstat(p); err != nil {
			mustDo(os.WriteFile(p, []byte("keep me"), 0666))
		} else if !fi.Mode().IsRegular() {
			return ""
		}
		mustDo(os.Chmod(p, 0444))
	case "no_dir_permission":
		d := filepath.Dir(p)
		for d != real && r.Chance(40) {
			d = filepath.Dir(d)
		}
		if os.MkdirAll(d, 0777) != nil {
			return ""
		}
		mustDo(os.Chmod(d, 0555))
	case "disk_full":
		if exists(p) || os.MkdirAll(filepath.Dir(p), 0777) != nil {
			return ""
		}
		mustDo(os.Symlink("/dev/full", p))
	case "dangling_link":
		if exists(p) || os.MkdirAll(filepath.Dir(p), 0777) != nil {
			return ""
		}
		mustDo(os.Symlink("nowhere/at/all", p))
	case "name_too_long":
		// a fresh file at the same place in the list
		gf := f.gf
		long := strings.Repeat("n", 300)
		if r.Chance(50) {
			gf.Name = long + ".go"
			files[bad].rel = filepath.Join(filepath.Dir(f.rel), gf.Name)
		} else {
			return ""
		}
	case "format":
		f.gf.AddElement(gopoet.NewFunc("broken").Println("}{"))
	}
	return what
}

// blocked tells from the file system whether the given file cannot be written,
// once the files before it have been.
func blocked(real, rel string, earlier []diskFile) (string, error) {
	made := map[string]string{} // what the earlier files create
	for _, e := range earlier {
		p := filepath.Join(real, e.rel)
		made[p] = "file"
		for d := filepath.Dir(p); d != "/" && d != "."; d = filepath.Dir(d) {
			made[d] = "dir"
		}
	}
	p := filepath.Join(real, rel)
	var dirs []string
	for d := filepath.Dir(p); d != "/" && d != "."; d = filepath.Dir(d) {
		dirs = append([]string{d}, dirs...)
	}
	writable := true
	for _, d := range dirs {
		if m := made[d]; m == "file" {
			return "dir_is_file", syscall.ENOTDIR
		} else if m == "dir" {
			if fi, err := os.Stat(d); err == nil {
				writable = fi.Mode()&0200 != 0
			}
			continue
		}
		fi, err := os.Stat(d)
		if err != nil {
			if !writable {
				return "no_dir_permission", syscall.EACCES
			}
			writable = true
			continue
		}
		if !fi.IsDir() {
			return "dir_is_file", syscall.ENOTDIR
		}
		writable = fi.Mode()&0200 != 0
	}
	if len(filepath.Base(p)) > 255 {
		return "name_too_long", syscall.ENAMETOOLONG
	}
	if m := made[p]; m == "dir" {
		return "file_is_dir", syscall.EISDIR
	} else if m == "file" {
		return "", nil
	}
	fi, err := os.Lstat(p)
	if err != nil {
		if !writable {
			return "no_dir_permission", syscall.EACCES
		}
		return "", nil
	}
	if fi.IsDir() {
		return "file_is_dir", syscall.EISDIR
	}
	if l, err := os.Readlink(p); err == nil {
		if l == "/dev/full" {
			return "disk_full", syscall.ENOSPC
		}
		return "dangling_link", syscall.ENOENT
	}
	if fi.Mode()&0200 == 0 {
		return "read_only", syscall.EACCES
	}
	return "", nil
}

func (k *Case) noGopath() {
	top, done := k.scratch()
	defer done()
	home := filepath.Join(top, "home")
	mustDo(os.MkdirAll(filepath.Join(home, "go", "src"), 0777))
	os.Setenv("HOME", home)
	cwd := filepath.Join(top, "cwd")
	k.populate(cwd)
	mustDo(os.Chdir(cwd))
	files := k.diskFiles(k.R.Between(0, 2))
	var gfs []*gopoet.GoFile
	for _, f := range files {
		gfs = append(gfs, f.gf)
	}
	how := "unset"
	if k.R.Chance(50) {
		how = "empty"
		os.Setenv("GOPATH", "")
	} else {
		os.Unsetenv("GOPATH")
	}
	before := snapshot(top)
	err := gopoet.WriteGoFilesToGoPath(gfs...)
	after := snapshot(top)
	os.Unsetenv("GOPATH")
	if err == nil {
		k.Failf("GOPATH is %s but writing %d files to it is no error", how, len(gfs))
	}
	for p, n := range after {
		if b, ok := before[p]; !ok || b != n {
			k.Failf("GOPATH is %s but %s was written: %v", how, p, n)
		}
	}
	if len(after) != len(before) {
		k.Failf("GOPATH is %s but something was removed", how)
	}
	k.Count("gopath_unset_or_empty", 1)
	k.Nontrivial(fmt.Sprint(how, len(before), files))
}

// fileNames checks that only names of Go files can be given to files, so that
// no file is written elsewhere.
func (k *Case) fileNames() {
	name := ""
	for n := k.R.IntN(5); n > 0; n-- {
		name += OneOf(k.R, "a", "b", ".", "..", "/", "../", "./", "x/", ".go", "_test", "世", " ", "\\", "go", ".GO", "%s", "~", ".go.go")
	}
	name += OneOf(k.R, "", ".go", ".go", ".go", ".Go", ".go/", ".go.")
	ok := name != "" && !strings.Contains(name, "/") && name != "." && name != ".." && strings.HasSuffix(name, ".go")
	var gf *gopoet.GoFile
	bad, val := panics(func() { gf = gopoet.NewGoFile(name, "p/a", "a") })
	if bad == ok {
		k.Failf("NewGoFile with the name %q: panic=%v %v", name, bad, val)
	}
	k.Nontrivial(name)
	if bad {
		k.Count("names_rejected", 1)
		return
	}
	k.Count("names_accepted", 1)
	if gf.Name != name {
		k.Failf("file made with the name %q is called %q", name, gf.Name)
	}
}
