package cmd

import (
	"io/ioutil"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/GalaIO/P2Pcrawler/zzverif/sym"
)

func tcRun(args ...string) string {
	os.Args = append([]string{"p2pcrawler"}, args...)
	before := sym.OpenFiles()
	sym.CaptureStdout()
	ExecuteBackgroud()
	out := sym.Stdout()
	sym.Assert(sym.OpenFiles() == before, "no file stays open")
	return out
}

func tcStr(s string) string { return strconv.Itoa(len(s)) + ":" + s }

// tcFile makes the contents of a torrent file and what is to be told of it.
func tcFile(tag string) (text string, name string, length, piece int) {
	name, length, piece = "name err", 0, 0
	d := "d"
	switch sym.Pick("length", 3) {
	case 1:
		length = sym.Range(tag+"len", 0, 9)
		d += "6:lengthi" + string([]byte{'0' + byte(length)}) + "e"
	case 2:
		d += "6:length1:x"
	}
	switch sym.Pick("name", 3) {
	case 1:
		name = sym.Str(tag+"name", sym.Pick("name.len", 4))
		d += "4:name" + tcStr(name)
	case 2:
		d += "4:namei7e"
	}
	if sym.Pick("piece", 2) == 1 {
		piece = 16384
		d += "12:piece lengthi16384e6:pieces20:aaaaabbbbbcccccddddd"
	}
	return d + "e", name, length, piece
}

func tcLine(name, file string, length, piece int) string {
	return name + "||" + file + "||" + string([]byte{'0' + byte(length)}) + "||" + strconv.Itoa(piece) + "\r\n"
}

// VH_C01_file names one file.
//
//verif:opts real weight=2
func VH_C01_file() {
	text, name, length, piece := tcFile("")
	path := []string{"some.torrent", "noext", "dir/x.torrent"}[sym.Pick("path", 3)]
	if strings.HasPrefix(path, "dir/") {
		if err := os.MkdirAll("dir", 0777); err != nil {
			panic(err)
		}
	}
	if err := ioutil.WriteFile(path, []byte(text), 0666); err != nil {
		panic(err)
	}
	out := tcRun("torrent", path)
	sym.Assert(out == tcLine(name, path, length, piece), "a torrent file is told in one line")
	b, err := ioutil.ReadFile(path)
	sym.Assert(err == nil && string(b) == text, "the file is left as it is")
}

// VH_C01_dir names a directory with files of any kind.
//
//verif:opts real weight=2
func VH_C01_dir() {
	dir := []string{"dir", "dir/", "./dir"}[sym.Pick("dir", 3)]
	if err := os.MkdirAll("dir", 0777); err != nil {
		panic(err)
	}
	var want []string
	odd := []string{"x.torrent.bak", "x.TORRENT", "x.torrents", "xtorrent", "x.Torrent"}[sym.Pick("odd", 5)]
	for i, n := range []string{"b.torrent", "a.torrent", "c.txt", "torrent", odd} {
		k := sym.Pick("kind", 3)
		if i > 2 && k == 2 {
			k = 1
		}
		switch k {
		case 1:
			name := sym.Str(n, sym.Bound(1, 2))
			if err := ioutil.WriteFile("dir/"+n, []byte("d6:lengthi7e4:name"+tcStr(name)+"12:piece lengthi16384ee"), 0666); err != nil {
				panic(err)
			}
			if i < 2 {
				want = append(want, tcLine(name, n, 7, 16384))
			}
		case 2:
			if err := os.MkdirAll("dir/"+n, 0777); err != nil {
				panic(err)
			}
		}
	}
	out := tcRun("torrent", dir)
	if len(want) == 2 {
		// in any order
		sym.Assert(sym.Or(out == want[0]+want[1], out == want[1]+want[0]), "each torrent file of a directory is told in one line")
		sym.Reach("two")
		return
	}
	sort.Strings(want)
	sym.Assert(out == strings.Join(want, ""), "each torrent file of a directory is told in one line")
}

// VH_C01_bad names a directory with files that are no torrent files inside.
//
//verif:opts real weight=1
func VH_C01_bad() {
	if err := os.MkdirAll("dir", 0777); err != nil {
		panic(err)
	}
	want := ""
	bad := 0
	for _, n := range []string{"a.torrent", "b.torrent", "c.torrent"} {
		text := "d6:lengthi7e4:name1:x12:piece lengthi16384ee"
		mode := os.FileMode(0666)
		switch sym.Pick("kind", 5) {
		case 0:
			want += tcLine("x", n, 7, 16384)
		case 1:
			text = ""
			bad++
		case 2:
			text = text[:[]int{1, 20, len(text) - 1}[sym.Pick("cut", 3)]]
			bad++
		case 3:
			text = "l" + sym.Str("text", 2)
			bad++
		case 4:
			mode = 0
			bad++
		}
		if err := ioutil.WriteFile("dir/"+n, []byte(text), mode); err != nil {
			panic(err)
		}
	}
	sym.Assert(tcRun("torrent", "dir") == want, "a bad file does not hide the others")
	if bad > 0 {
		sym.Reach("bad")
	}
}

// VH_C01_broken names one file that is no torrent file inside, or is missing.
//
//verif:opts real weight=1
func VH_C01_broken() {
	text := sym.Str("text", sym.Pick("len", sym.Bound(4, 6)))
	sym.Assume(text == "" || text[0] != 'd' || text[len(text)-1] != 'e')
	if sym.Pick("missing", 2) == 0 {
		if err := ioutil.WriteFile("x.torrent", []byte(text), 0666); err != nil {
			panic(err)
		}
	}
	out := "?"
	e := sym.Caught(func() { out = tcRun("torrent", "x.torrent") })
	sym.Assert(e != nil, "a file that is no torrent file is refused")
	sym.Assert(sym.OpenFiles() == 0, "no file stays open")
	sym.Assert(out == "?", "a file that is no torrent file is refused")
}

// VH_C01_version asks for the version.
//
//verif:opts real weight=1
func VH_C01_version() {
	out := tcRun("version")
	sym.Assert(strings.Count(out, "\n") == 1 && strings.Contains(out, "version 0.1.0"), "the version is told in one line")
}
