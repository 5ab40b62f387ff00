// Whether and why files are skipped, for files in any order, against the limits and lists of the documentation.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/zz_verif/vlib"
)

const (
	no      = ""
	config  = "File was a config file"
	dot     = "File was a dot file"
	listed  = "File was on an exclusion list"
	vendor  = "File was a vendored file"
	license = "File is a license file"
	unknown = "Language was unknown"
)

type kind struct {
	path, skip string
	lic        bool
}

var kinds = []kind{
	{"main.go", no, false}, {"dir1/a.go", no, false}, {"src/com/foo/android/cache/DiskLruCache.java", no, false}, {"src/dependencies/a.go", no, false},
	{"a/b/c.py", no, false}, {"x.js", no, false}, {"license.go", no, false}, {"src.go", no, false}, {"my.xyzzy", no, false}, {"noext", no, false},
	{"config.json", config, false}, {"a/b.yml", config, false}, {"a.ini", config, false}, {"vendor/a.json", config, false}, {".a.json", config, false}, {".config", dot, false}, {"a/.hidden", dot, false}, {".vendor", dot, false},
	{"go.sum", listed, false}, {"a/go.mod", listed, false}, {"vendor/a.go", listed, false}, {"Vendor/a.go", vendor, false}, {"a.min.js", listed, false}, {"node_modules/x.js", listed, false}, {"a.png", listed, false}, {"a/b.zip", listed, false},
	{"dependencies/a.go", vendor, false}, {"dependencies/x/b.go", vendor, false},
	{"LICENSE", listed, true}, {"a/LICENCE.md", no, true}, {"COPYING", listed, true}, {"README.txt", listed, true}, {"LICENSE-MIT", listed, true}, {"UNLICENSE", listed, true}, {"node_modules/README", listed, true}, {"LICENSE-a.go", listed, true}, {"UNLICENCE", no, false}, {"dependencies/UNLICENCE.md", vendor, false},
}

const apache = `Copyright 2018 Pinpoint

Licensed under the Apache License, Version 2.0 (the "License");
you may not use this file except in compliance with the License.
You may obtain a copy of the License at

    http://www.apache.org/licenses/LICENSE-2.0

Unless required by applicable law or agreed to in writing, software
distributed under the License is distributed on an "AS IS" BASIS,
WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
See the License for the specific language governing permissions and
limitations under the License.`

type file struct {
	k       kind
	content []byte
	lines   [][]byte
	desc    string
}

func makeFile(r *vlib.Run) file {
	f := file{k: kinds[r.R.Intn(len(kinds))]}
	if r.Chance(0.5) {
		f.k = kinds[r.R.Intn(10)]
	}
	var b bytes.Buffer
	word := r.Pick([]string{"package main\n", "x\n", "def f():\n  pass\n"})
	b.WriteString(word)
	f.desc = fmt.Sprintf("%q", word)
	add := func(what string, w, n int) {
		f.desc += fmt.Sprintf(", %d %s of %d", n, what, w)
		l := strings.Repeat("a", w) + "\n"
		b.WriteString(strings.Repeat(l, n))
	}
	near := func(n int) int { return n + []int{-1, 0, 1, 2, 500}[r.R.Intn(5)] }
	switch r.R.Intn(9) {
	case 0:
		add("lines", near(1096), 1)
	case 1:
		add("lines", 3, r.R.Intn(5))
		add("lines", near(1096), 1)
		add("lines", near(1200), 1)
	case 2:
		add("lines", 1, near(39998-bytes.Count(b.Bytes(), []byte("\n"))+1))
	case 3:
		n := near(1000000)
		add("lines", 999, (n-b.Len())/1000)
		if n-b.Len() > 1000 {
			add("lines", 999, 1)
		}
		if n > b.Len() {
			add("lines", n-b.Len()-1, 1)
		}
	case 4:
		add("lines", near(1096), 1)
		add("lines", 1, 40500)
	case 5:
		b.Reset()
		if strings.Contains(f.k.path, "README") { // only parts of these are looked at
			f.k = kinds[0]
		}
		b.WriteString(apache)
		f.desc = "license"
	case 6:
		b.Reset()
		f.desc = "empty"
	}
	f.content = b.Bytes()
	f.lines = bytes.Split(f.content, []byte("\n"))
	if r.Chance(0.3) { // the lines are what is measured, not the content
		f.lines = f.lines[:r.R.Intn(len(f.lines)+1)]
		f.desc += fmt.Sprintf(", the first %d lines", len(f.lines))
	}
	return f
}

func expected(f file) string {
	if len(f.content) > 1000000 {
		return fmt.Sprintf("File size was %dK which exceeds limit of 1000K", len(f.content)/1000)
	}
	if f.k.lic && string(f.content) == apache {
		return license
	}
	if f.k.skip != no {
		return f.k.skip
	}
	if len(f.lines) > 40000 {
		return "File has more than 40000 lines"
	}
	for _, l := range f.lines {
		if len(l) > 1096 {
			return fmt.Sprintf("File has a line width of %d which is greater than max of 1096", len(l))
		}
	}
	return no
}

func main() {
	vlib.Main("the reason is the one for the path and content alone, with the documented limits; it does not depend on files seen before", func(r *vlib.Run) {
		p := fileinfo.New()
		n := 1 + r.R.Intn(12)
		var desc []string
		var fs []file
		for i := 0; i < n; i++ {
			f := makeFile(r)
			if i > 0 && r.Chance(0.3) {
				if k := fs[r.R.Intn(i)].k; !strings.HasPrefix(f.desc, "license") || !strings.Contains(k.path, "README") {
					f.k = k
				}
			}
			fs = append(fs, f)
			desc = append(desc, f.k.path+": "+f.desc)
		}
		many := -1 // before this one come many others
		if r.Chance(0.02) {
			many = r.R.Intn(n)
		}
		r.Input(n > 1, "%s\n(%d has many others before it)", strings.Join(desc, "\n"), many)
		for i, f := range fs {
			if i == many {
				for k := 0; k < 2200; k++ {
					l := []byte("package main\n")
					p.GetInfo(fileinfo.InfoArgs{FilePath: fmt.Sprintf("%d/w.go", k), Lines: [][]byte{l}, Content: l})
				}
			}
			args := fileinfo.InfoArgs{FilePath: f.k.path, Lines: f.lines, Content: f.content}
			res, skip := p.GetInfo(args)
			want := expected(f)
			lang := map[string]string{"main.go": "Go", "dir1/a.go": "Go", "license.go": "Go", "src.go": "Go", "src/dependencies/a.go": "Go", "a/b/c.py": "Python", "x.js": "JavaScript", "src/com/foo/android/cache/DiskLruCache.java": "Java"}[f.k.path]
			if want == no && lang == "" { // decided by content
				if skip != no && skip != unknown || (skip == no) != (res.Language != "") {
					r.Fail("reason", "file %d: %q, language %q", i, skip, res.Language)
				}
			} else {
				if skip != want {
					r.Fail("reason", "file %d: %q, should be %q", i, skip, want)
				}
				if skip == no && res.Language != lang {
					r.Fail("language", "file %d: %q, should be %q", i, res.Language, lang)
				}
			}
			if (res.License != nil) != (skip == license) {
				r.Fail("license", "file %d: license %v with reason %q", i, res.License, skip)
			}
			res2, skip2 := fileinfo.New().GetInfo(args)
			if skip2 != skip || res2.Language != res.Language {
				r.Fail("history", "file %d: %q %q after others, alone %q %q", i, skip, res.Language, skip2, res2.Language)
			}
		}
	})
}
