package main

import (
	"go/types"
	"path"
	"sort"
	"strings"
)

// The file system of a path: files in memory below /mem/, /dev/full, which no write succeeds on, and the standard
// streams (reads give the end of file, writes are discarded).  Everything else does not exist.

type memFile struct{ data []Value }

type memHandle struct {
	file   *memFile
	pos    int
	write  bool
	full   bool
	closed bool
}

type memFS struct {
	files map[string]*memFile
	open  map[Ptr]*memHandle
	sizes map[Ptr]int
}

func newMemFS() *memFS {
	return &memFS{files: map[string]*memFile{}, open: map[Ptr]*memHandle{}, sizes: map[Ptr]int{}}
}

func (in *Interp) fileHandle(h *memHandle) Value {
	p := new(Value)
	*p = Struct{Ptr(nil)}
	in.fs.open[p] = h
	return p
}

func (in *Interp) pathError(op, name string, err Value) Value {
	p := new(Value)
	*p = Struct{op, name, err}
	return Iface{rtypeOf(types.NewPointer(in.p.typeByName("io/fs", "PathError"))), p}
}

func (in *Interp) errNotExist(op, name string) Value {
	return in.pathError(op, name, in.globalByName("io/fs", "ErrNotExist"))
}

func registerOS(N map[string]NativeFn, sym string) {
	handle := func(in *Interp, v Value) *memHandle {
		if p, ok := v.(Ptr); ok && p != nil {
			return in.fs.open[p]
		}
		return nil
	}
	closedErr := func(in *Interp, op string) Value {
		return in.pathError(op, "", in.globalByName("io/fs", "ErrClosed"))
	}
	write := func(in *Interp, h *memHandle, b []Value) Value {
		switch {
		case h == nil:
			return Tuple{int64(len(b)), Iface{}}
		case h.closed:
			return Tuple{int64(0), closedErr(in, "write")}
		case h.full:
			if len(b) == 0 {
				return Tuple{int64(0), Iface{}}
			}
			return Tuple{int64(0), in.pathError("write", "/dev/full", in.globalByName("io", "ErrShortWrite"))}
		case !h.write:
			return Tuple{int64(0), in.pathError("write", "", in.globalByName("io/fs", "ErrPermission"))}
		}
		h.file.data = append(h.file.data[:h.pos:h.pos], b...)
		h.pos += len(b)
		return Tuple{int64(len(b)), Iface{}}
	}
	N["(*os.File).Write"] = func(in *Interp, fr *Frame, a []Value) Value {
		return write(in, handle(in, a[0]), sliceOf(a[1]))
	}
	N["(*os.File).WriteString"] = func(in *Interp, fr *Frame, a []Value) Value {
		h := handle(in, a[0])
		if h == nil {
			return Tuple{int64(in.strLen(a[1])), Iface{}}
		}
		return write(in, h, in.strBytes(a[1]))
	}
	N["(*os.File).Read"] = func(in *Interp, fr *Frame, a []Value) Value {
		h := handle(in, a[0])
		dst := sliceOf(a[1])
		switch {
		case h == nil:
			return Tuple{int64(0), in.globalByName("io", "EOF")}
		case h.closed:
			return Tuple{int64(0), closedErr(in, "read")}
		case h.write:
			return Tuple{int64(0), in.pathError("read", "", in.globalByName("io/fs", "ErrPermission"))}
		case len(dst) == 0:
			return Tuple{int64(0), Iface{}}
		case h.pos >= len(h.file.data):
			return Tuple{int64(0), in.globalByName("io", "EOF")}
		}
		n := 0
		for n < len(dst) && h.pos < len(h.file.data) {
			in.set(&dst[n], h.file.data[h.pos])
			n++
			h.pos++
		}
		return Tuple{int64(n), Iface{}}
	}
	N["(*os.File).Close"] = func(in *Interp, fr *Frame, a []Value) Value {
		h := handle(in, a[0])
		if h == nil {
			return Iface{}
		}
		if h.closed {
			return closedErr(in, "close")
		}
		h.closed = true
		return Iface{}
	}
	N["(*os.File).Sync"] = func(in *Interp, fr *Frame, a []Value) Value { return Iface{} }
	N["os.Open"] = func(in *Interp, fr *Frame, a []Value) Value {
		name := in.concString(a[0])
		f := in.fs.files[name]
		if f == nil {
			return Tuple{Ptr(nil), in.errNotExist("open", name)}
		}
		return Tuple{in.fileHandle(&memHandle{file: f}), Iface{}}
	}
	N["os.Create"] = func(in *Interp, fr *Frame, a []Value) Value {
		name := in.concString(a[0])
		if name == "/dev/full" {
			return Tuple{in.fileHandle(&memHandle{file: &memFile{}, write: true, full: true}), Iface{}}
		}
		if !strings.HasPrefix(name, "/mem/") || strings.Contains(name[5:], "/") {
			return Tuple{Ptr(nil), in.errNotExist("open", name)}
		}
		f := in.fs.files[name]
		if f == nil {
			f = &memFile{}
			in.fs.files[name] = f
		}
		f.data = nil
		return Tuple{in.fileHandle(&memHandle{file: f, write: true}), Iface{}}
	}
	N["os.OpenFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		return Tuple{Ptr(nil), in.errNotExist("open", in.concString(a[0]))}
	}
	N["os.Stat"] = func(in *Interp, fr *Frame, a []Value) Value {
		name := in.concString(a[0])
		f := in.fs.files[name]
		if f == nil {
			return Tuple{Iface{}, in.errNotExist("stat", name)}
		}
		p := new(Value)
		*p = Struct{}
		in.fs.sizes[p] = len(f.data)
		return Tuple{Iface{rtypeOf(types.NewPointer(in.p.typeByName("os", "fileStat"))), p}, Iface{}}
	}
	N["(*os.fileStat).Size"] = func(in *Interp, fr *Frame, a []Value) Value {
		return int64(in.fs.sizes[a[0].(Ptr)])
	}
	N["os.ReadFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		name := in.concString(a[0])
		f := in.fs.files[name]
		if f == nil {
			return Tuple{Slice(nil), in.errNotExist("open", name)}
		}
		return Tuple{Slice(append([]Value{}, f.data...)), Iface{}}
	}
	N["path/filepath.Glob"] = func(in *Interp, fr *Frame, a []Value) Value {
		pattern := in.concString(a[0])
		if _, err := path.Match(pattern, ""); err != nil {
			return Tuple{Slice(nil), in.globalByName("path/filepath", "ErrBadPattern")}
		}
		var names []string
		for name := range in.fs.files {
			if ok, _ := path.Match(pattern, name); ok {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		if names == nil {
			return Tuple{Slice(nil), Iface{}}
		}
		return Tuple{goStrings(names), Iface{}}
	}
	N[sym+"TempName"] = func(in *Interp, fr *Frame, a []Value) Value { return "/mem/" + in.concString(a[0]) }
	N[sym+"FileText"] = func(in *Interp, fr *Frame, a []Value) Value {
		f := in.fs.files[in.concString(a[0])]
		if f == nil {
			return Tuple{"", false}
		}
		return Tuple{mkStr(append([]Value{}, f.data...)), true}
	}
	N[sym+"PutFile"] = func(in *Interp, fr *Frame, a []Value) Value {
		in.fs.files[in.concString(a[0])] = &memFile{data: append([]Value{}, in.strBytes(a[1])...)}
		return nil
	}
	N[sym+"OpenFiles"] = func(in *Interp, fr *Frame, a []Value) Value {
		n := 0
		for _, h := range in.fs.open {
			if !h.closed {
				n++
			}
		}
		return int64(n)
	}
}
