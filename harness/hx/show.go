package hx

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Show renders a value with everything reachable from it, maps in the order of
// their keys, without addresses and without points in time.
func Show(v any) string {
	var out strings.Builder
	seen := map[uintptr]int{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			out.WriteString("nil")
			return
		}
		if v.CanInterface() {
			if e, ok := v.Interface().(error); ok && !(v.Kind() == reflect.Pointer && v.IsNil()) && v.Kind() != reflect.Interface {
				fmt.Fprintf(&out, "%s(%q)", v.Type(), e.Error())
				return
			}
		}
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				out.WriteString("nil")
				return
			}
			if n, ok := seen[v.Pointer()]; ok {
				fmt.Fprintf(&out, "#%d", n)
				return
			}
			seen[v.Pointer()] = len(seen)
			out.WriteString("&")
			walk(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				out.WriteString("nil")
				return
			}
			fmt.Fprintf(&out, "(%s)", v.Elem().Type())
			walk(v.Elem())
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(time.Time{}) {
				out.WriteString("time")
				return
			}
			out.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); !f.IsZero() {
					out.WriteString(v.Type().Field(i).Name + ":")
					walk(f)
					out.WriteString(" ")
				}
			}
			out.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&out, "%q", v.Bytes())
				return
			}
			out.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				out.WriteString("\n")
			}
			out.WriteString("]")
		case reflect.Map:
			keys := v.MapKeys()
			names := make(map[int]string, len(keys))
			order := make([]int, len(keys))
			for i, k := range keys {
				names[i], order[i] = key(k), i
			}
			sort.Slice(order, func(i, j int) bool { return names[order[i]] < names[order[j]] })
			out.WriteString("map[")
			for _, i := range order {
				out.WriteString(names[i] + ":")
				walk(v.MapIndex(keys[i]))
				out.WriteString("\n")
			}
			out.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&out, "%q", v.String())
		case reflect.Bool:
			fmt.Fprint(&out, v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprint(&out, v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			fmt.Fprint(&out, v.Uint())
		case reflect.Float32, reflect.Float64:
			fmt.Fprint(&out, v.Float())
		case reflect.Complex64, reflect.Complex128:
			fmt.Fprint(&out, v.Complex())
		default:
			out.WriteString(v.Kind().String())
		}
	}
	walk(reflect.ValueOf(v))
	return out.String()
}

// key renders a map key: a string, a number or an array or struct of those.
func key(k reflect.Value) string {
	for k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	switch k.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", k.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", k.Int())
	}
	return fmt.Sprint(k)
}
