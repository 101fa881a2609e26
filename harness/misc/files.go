package misc

import (
	"io/ioutil"
	"os"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

// VH_U02_files makes and removes files and directories and asks about them.
//
//verif:opts
func VH_U02_files() {
	paths := []string{"uf", "uf/a", "uf.x", "ug", "ug/deep"}
	const none, dir = -1, -2
	is := map[string]int{}
	for _, p := range paths {
		is[p] = none
	}
	parent := func(p string) bool { return len(p) < 3 || p[2] != '/' || is[p[:2]] == dir }
	for i := 0; i < sym.Bound(3, 4); i++ {
		p := paths[sym.Pick("path", len(paths))]
		switch sym.Pick("do", 3) {
		case 0:
			err := Mkdir(p)
			sym.Assert((err == nil) == (is[p] == none && parent(p)), "a directory is made exactly where it can be")
			if err == nil {
				is[p] = dir
			}
		case 1:
			n := []int{0, 1, 5000}[sym.Pick("size", 3)]
			err := ioutil.WriteFile(p, make([]byte, n), 0644)
			sym.Assert((err == nil) == (is[p] != dir && parent(p)), "files can be made in a directory that was made")
			if err == nil {
				is[p] = n
			}
		case 2:
			if os.Remove(p) == nil {
				is[p] = none
			}
		}
		for _, p := range paths {
			sym.Assert(IsExist(p) == (is[p] != none), "a path exists or not")
			sym.Assert(IsDir(p) == (is[p] == dir), "a path is a directory or not")
			if is[p] != dir {
				sym.Assert(GetFileSize(p) == int64(is[p]), "the size of a file is its length, or -1")
			}
		}
	}
	sym.Assert(IsExist(".") && IsDir(".") && !IsExist("") && !IsDir("") && GetFileSize("") == -1, "the current directory is one, the empty path is none")
}
