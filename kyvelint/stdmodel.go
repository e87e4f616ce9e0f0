package main

// Reference bodies for list helpers of the standard library. A call to one of
// them is analysed like a call to a helper of the repository; the bodies state
// what the helper computes, not how the library computes it.

import (
	"go/ast"
	"go/parser"
	"go/token"
)

var stdModels = map[string]string{
	"slices": `package slices
import "cmp"
func ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool {
	for _, v := range s {
		if f(v) {
			return true
		}
	}
	return false
}
func Index[S ~[]E, E comparable](s S, v E) int {
	for i := range s {
		if v == s[i] {
			return i
		}
	}
	return -1
}
func IndexFunc[S ~[]E, E any](s S, f func(E) bool) int {
	for i := range s {
		if f(s[i]) {
			return i
		}
	}
	return -1
}
func Delete[S ~[]E, E any](s S, i, j int) S {
	return append(s[:i], s[j:]...)
}
func DeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {
	var kept S
	for _, v := range s {
		if !del(v) {
			kept = append(kept, v)
		}
	}
	return kept
}
func Clone[S ~[]E, E any](s S) S {
	return append(S(nil), s...)
}
func Max[S ~[]E, E cmp.Ordered](x S) E {
	if len(x) < 1 {
		panic("slices.Max: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		m = max(m, x[i])
	}
	return m
}
func Min[S ~[]E, E cmp.Ordered](x S) E {
	if len(x) < 1 {
		panic("slices.Min: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		m = min(m, x[i])
	}
	return m
}
func MaxFunc[S ~[]E, E any](x S, cmp func(a, b E) int) E {
	if len(x) < 1 {
		panic("slices.MaxFunc: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		if cmp(x[i], m) > 0 {
			m = x[i]
		}
	}
	return m
}
func MinFunc[S ~[]E, E any](x S, cmp func(a, b E) int) E {
	if len(x) < 1 {
		panic("slices.MinFunc: empty list")
	}
	m := x[0]
	for i := 1; i < len(x); i++ {
		if cmp(x[i], m) < 0 {
			m = x[i]
		}
	}
	return m
}
`,
	"maps": `package maps
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}
`,
	"cmp": `package cmp
func Compare[T Ordered](x, y T) int {
	if x < y {
		return -1
	}
	if x > y {
		return +1
	}
	return 0
}
`,
}

func isModelPath(p string) bool { return stdModels[p] != "" }

// inlinable: the packages whose functions are followed into.
func inlinable(p string) bool { return isRepoPath(p) || isModelPath(p) }

// model replaces the declarations of a library package: the modelled
// functions get their reference bodies, the others have none.
func model(path string, fset *token.FileSet, files []*ast.File) error {
	src := stdModels[path]
	ref, err := parser.ParseFile(fset, path+" (reference)", src, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	bodies := map[string]*ast.FuncDecl{}
	for _, d := range ref.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			bodies[fd.Name.Name] = fd
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			fd.Body = nil
			if r := bodies[fd.Name.Name]; r != nil && fd.Recv == nil {
				fd.Type, fd.Body = r.Type, r.Body
			}
		}
	}
	return nil
}
