package main

// Model of the part of package reflect that identity comparisons need: ValueOf, Kind, Type,
// Pointer/UnsafePointer, IsNil, Len, TypeOf, DeepEqual is not modelled.

import (
	"go/types"
	"reflect"
	"sync"
	"sync/atomic"
)

var addrTab sync.Map
var addrN int64 = 0x10000

// addrOf is a stable number for the identity of a host object.
func addrOf(o any) int64 {
	if v, ok := addrTab.Load(o); ok {
		return v.(int64)
	}
	v, _ := addrTab.LoadOrStore(o, atomic.AddInt64(&addrN, 16))
	return v.(int64)
}

var rtypePtr sync.Map

func (in *Interp) reflectType(r *RType) Value {
	v, ok := rtypePtr.Load(r)
	if !ok {
		p := new(Value)
		*p = &Native{r}
		v, _ = rtypePtr.LoadOrStore(r, Ptr(p))
	}
	return Iface{t: rtypeOf(types.NewPointer(in.p.typeByName("reflect", "rtype"))), v: v.(Ptr)}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32,
			types.Float64: reflect.Float64, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Signature:
		return reflect.Func
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func registerReflect(p *Program) {
	N := p.natives
	get := func(in *Interp, a Value) Iface {
		s, ok := a.(Struct)
		if !ok || len(s) == 0 {
			in.unsupported("reflect.Value %T", a)
		}
		i, ok := s[0].(Iface)
		if !ok {
			in.unsupported("reflect.Value")
		}
		return i
	}
	N["reflect.ValueOf"] = func(in *Interp, fr *Frame, a []Value) Value { return Struct{a[0].(Iface), nil, nil} }
	N["reflect.TypeOf"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.reflectType(i.t)
	}
	N["(reflect.Value).Kind"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := get(in, a[0])
		if i.t == nil {
			return int64(0)
		}
		return int64(kindOf(i.t.t))
	}
	N["(reflect.Value).Type"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := get(in, a[0])
		if i.t == nil {
			in.nilDeref()
		}
		return in.reflectType(i.t)
	}
	N["(reflect.Value).Comparable"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := get(in, a[0])
		return i.t == nil || i.t.comparable()
	}
	ptr := func(in *Interp, fr *Frame, a []Value) Value {
		switch x := get(in, a[0]).v.(type) {
		case nil:
			return int64(0)
		case Ptr:
			if x == nil {
				return int64(0)
			}
			return addrOf(x)
		case *Map:
			if x == nil {
				return int64(0)
			}
			return addrOf(x)
		case *Closure:
			if x == nil {
				return int64(0)
			}
			if x.fn != nil {
				return addrOf(x.fn)
			}
			return addrOf(x)
		case Slice:
			if cap(x) == 0 {
				return int64(8)
			}
			return addrOf(&x[:1][0])
		}
		in.unsupported("reflect.Value.Pointer")
		return nil
	}
	N["internal/reflectlite.TypeOf"] = func(in *Interp, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: rtypeOf(in.p.typeByName("internal/reflectlite", "rtype")), v: Struct{newNative(i.t)}}
	}
	N["(internal/reflectlite.rtype).Comparable"] = func(in *Interp, fr *Frame, a []Value) Value {
		return in.nativeOf(a[0].(Struct)[0]).(*RType).comparable()
	}
	N["(reflect.Value).Pointer"] = ptr
	N["(reflect.Value).UnsafePointer"] = ptr
	N["(reflect.Value).IsNil"] = func(in *Interp, fr *Frame, a []Value) Value { return ptr(in, fr, a) == int64(0) }
}
