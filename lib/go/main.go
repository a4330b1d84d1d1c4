// A real program with a real runtime and standard library: run natively and under pywasm in twin directories, it has to say and do the same.
package main

import (
	"bufio"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var state uint64

func rnd(n int) int {
	state ^= state << 13
	state ^= state >> 7
	state ^= state << 17
	return int((state >> 11) % uint64(n))
}

var known = []struct {
	n string
	e error
}{{"ENOTDIR", syscall.ENOTDIR}, {"EISDIR", syscall.EISDIR}, {"ENOTEMPTY", syscall.ENOTEMPTY}, {"EEXIST", syscall.EEXIST}, {"ENOENT", syscall.ENOENT}, {"EINVAL", syscall.EINVAL},
	{"ELOOP", syscall.ELOOP}, {"EBADF", syscall.EBADF}, {"EXDEV", syscall.EXDEV}, {"EACCES", syscall.EACCES}, {"EPERM", syscall.EPERM}}

func name(e error) string {
	if e == nil {
		return "ok"
	}
	if e == io.EOF {
		return "EOF"
	}
	for _, k := range known {
		if errors.Is(e, k.e) {
			return k.n
		}
	}
	if strings.Contains(e.Error(), "apabilit") {
		// an operation the file was not opened for: no right to it, or a bad descriptor
		return "EBADF"
	}
	return "other"
}

func sum(b []byte) []byte {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum(nil)
}

var root string
var parts = []string{"a", "b", "c", "dd", "ü", "e f"}

func path() string {
	p := root
	for k := 1 + rnd(3); k > 0; k-- {
		p += "/" + parts[rnd(len(parts))]
	}
	return p
}

func show(p string) string {
	return strings.TrimPrefix(p, root)
}

func kind(m fs.FileMode) string {
	switch {
	case m.IsDir():
		return "dir"
	case m&fs.ModeSymlink != 0:
		return "link"
	case m.IsRegular():
		return "file"
	}
	return "odd"
}

func step(out *bufio.Writer) {
	p, q := path(), path()
	switch rnd(16) {
	case 0:
		fmt.Fprintln(out, "mkdir", show(p), name(os.Mkdir(p, 0o755)))
	case 1:
		fmt.Fprintln(out, "mkdirall", show(p), name(os.MkdirAll(p, 0o755)))
	case 2, 3:
		b := []byte(strings.Repeat(show(q), rnd(40)))
		fmt.Fprintln(out, "write", show(p), len(b), name(os.WriteFile(p, b, 0o644)))
	case 4:
		b, e := os.ReadFile(p)
		fmt.Fprintf(out, "read %s %d %x %s\n", show(p), len(b), sum(b), name(e))
	case 5:
		l, e := os.ReadDir(p)
		fmt.Fprint(out, "readdir ", show(p), " ", name(e))
		for _, x := range l {
			fmt.Fprint(out, " ", x.Name(), ":", kind(x.Type()))
		}
		fmt.Fprintln(out)
	case 6:
		fmt.Fprintln(out, "rename", show(p), show(q), os.Rename(p, q) == nil)
	case 7:
		t := parts[rnd(len(parts))]
		fmt.Fprintln(out, "symlink", t, show(p), name(os.Symlink(t, p)))
	case 8:
		t, e := os.Readlink(p)
		fmt.Fprintln(out, "readlink", show(p), t, name(e))
	case 9:
		fmt.Fprintln(out, "link", show(p), show(q), os.Link(p, q) == nil)
	case 10:
		fmt.Fprintln(out, "remove", show(p), name(os.Remove(p)))
	case 11:
		i, e := os.Lstat(p)
		if e == nil {
			n := i.Size()
			if i.IsDir() {
				n = -1
			}
			fmt.Fprintln(out, "lstat", show(p), kind(i.Mode()), n)
		} else {
			fmt.Fprintln(out, "lstat", show(p), name(e))
		}
	case 12:
		i, e := os.Stat(p)
		if e == nil {
			fmt.Fprintln(out, "stat", show(p), kind(i.Mode()))
		} else {
			fmt.Fprintln(out, "stat", show(p), name(e))
		}
	case 13:
		t := time.Unix(int64(rnd(1<<30)), int64(rnd(1000000000)))
		e := os.Chtimes(p, t, t)
		i, f := os.Stat(p)
		s := ""
		if e == nil && f == nil {
			s = strconv.FormatBool(i.ModTime().Equal(t))
		}
		fmt.Fprintln(out, "chtimes", show(p), name(e), s)
	default:
		flags := []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_APPEND | os.O_CREATE}
		g := flags[rnd(len(flags))]
		f, e := os.OpenFile(p, g, 0o644)
		fmt.Fprint(out, "open ", show(p), " ", g&3, " ", name(e))
		if e != nil {
			fmt.Fprintln(out)
			return
		}
		if i, e := f.Stat(); e == nil && i.IsDir() {
			fmt.Fprintln(out, " dir", name(f.Close()))
			return
		}
		for k := rnd(6); k > 0; k-- {
			b := make([]byte, rnd(50))
			switch rnd(7) {
			case 0:
				n, e := f.Read(b)
				fmt.Fprintf(out, " r%d:%x:%s", n, b[:n], name(e))
			case 1:
				n, e := f.Write([]byte(show(q)))
				fmt.Fprintf(out, " w%d:%s", n, name(e))
			case 2:
				n, e := f.Seek(int64(rnd(60))-5, rnd(3))
				fmt.Fprintf(out, " s%d:%s", n, name(e))
			case 3:
				n, e := f.ReadAt(b, int64(rnd(40)))
				fmt.Fprintf(out, " p%d:%x:%s", n, b[:n], name(e))
			case 4:
				if g&os.O_APPEND == 0 {
					n, e := f.WriteAt([]byte(show(q)), int64(rnd(40)))
					fmt.Fprintf(out, " q%d:%s", n, name(e))
				}
			case 5:
				fmt.Fprint(out, " t", name(f.Truncate(int64(rnd(100)))))
			case 6:
				fmt.Fprint(out, " y", name(f.Sync()))
			}
		}
		fmt.Fprintln(out, " c", name(f.Close()), name(f.Close()) != "ok")
	}
}

func fsops(out *bufio.Writer, n int) {
	for k := 0; k < n; k++ {
		step(out)
	}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, e error) error {
		if e != nil {
			fmt.Fprintln(out, "walk", show(p), name(e))
			return nil
		}
		fmt.Fprintln(out, "walk", show(p), kind(d.Type()))
		return nil
	})
}

func concurrent(out *bufio.Writer) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	sums := map[int]int{}
	ch := make(chan int, 3)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for v := range ch {
				mu.Lock()
				sums[v%7] += v
				mu.Unlock()
				if v%5 == 0 {
					runtime.Gosched()
				}
			}
		}(w)
	}
	for i := 0; i < 60+rnd(60); i++ {
		ch <- i * i
	}
	close(ch)
	wg.Wait()
	keys := []int{}
	for k := range sums {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		fmt.Fprint(out, k, "=", sums[k], " ")
	}
	select {
	case <-time.After(2 * time.Millisecond):
		fmt.Fprintln(out, "timer")
	case <-make(chan int):
	}
	t := time.Now()
	time.Sleep(3 * time.Millisecond)
	fmt.Fprintln(out, time.Since(t) >= 3*time.Millisecond, time.Since(t) < time.Hour)
}

func compute(out *bufio.Writer) {
	x := big.NewInt(1)
	for i := 1; i < 20+rnd(30); i++ {
		x.Mul(x, big.NewInt(int64(i*1000003)))
	}
	fmt.Fprintln(out, x, x.BitLen())
	for i := 0; i < 6; i++ {
		f := math.Float64frombits(state * uint64(i+1))
		g := float64(rnd(1000000)) / float64(1+rnd(1000))
		fmt.Fprintln(out, f, float32(g), math.Sqrt(g), math.Floor(-g), strconv.FormatFloat(g, 'e', -1, 64), int64(g), uint8(int(g)), math.Round(g), math.Trunc(g))
	}
	var keep [][]byte
	for i := 0; i < 30; i++ {
		keep = append(keep, make([]byte, 1000+rnd(40000)))
		keep[rnd(len(keep))] = nil
	}
	if rnd(4) == 0 {
		runtime.GC()
	}
	n := 0
	for _, b := range keep {
		n += len(b)
	}
	fmt.Fprintln(out, n)
	func() {
		defer func() { fmt.Fprintln(out, "recovered", recover() != nil) }()
		var a []int
		_ = a[rnd(3)]
	}()
	words := []string{}
	for i := 0; i < 20; i++ {
		words = append(words, strconv.FormatInt(int64(rnd(1<<40)), 36))
	}
	sort.Strings(words)
	fmt.Fprintln(out, strings.Join(words, ","))
}

func main() {
	seed, _ := strconv.ParseUint(os.Args[1], 10, 64)
	state = seed*0x9E3779B97F4A7C15 | 1
	root = os.Args[2]
	out := bufio.NewWriterSize(os.Stdout, 64+rnd(5000))
	fmt.Fprintf(out, "%q\n", os.Args[3:])
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "V") {
			env = append(env, e)
		}
	}
	sort.Strings(env)
	fmt.Fprintf(out, "%q %q\n", env, os.Getenv("VB"))
	n, _ := strconv.Atoi(os.Getenv("VOPS"))
	b, e := io.ReadAll(os.Stdin)
	fmt.Fprintf(out, "%d %x %v\n", len(b), sum(b), e)
	fsops(out, n)
	concurrent(out)
	compute(out)
	out.Flush()
	fmt.Fprintln(os.Stderr, "leaving", seed)
	os.Exit(int(seed % 120))
}
