// P34: opens archives with the generated code and the Go runtime, prints everything they hold as JSON.
// stdin: one JSON object per line {"mode": "file"|"mem", "path": ..., "files": {name: base64}}
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"

	"github.com/heremaps/flatdata/flatdata-go/flatdata"
	"reader/n"
)

type job struct {
	Mode  string
	Path  string
	Files map[string]string
	Deep  bool
}
type object map[string]interface{}

func a(e *n.A) object {
	return object{"t": "A", "a": fmt.Sprint(e.GetA()), "b": fmt.Sprint(e.GetB()), "c": fmt.Sprint(e.GetC()), "d": fmt.Sprint(e.GetD()), "s": e.ToString()}
}
func b(e *n.B) object {
	return object{"t": "B", "x": fmt.Sprint(e.GetX()), "y": fmt.Sprint(e.GetY()), "z": fmt.Sprint(e.GetZ()), "s": e.ToString()}
}
func c(e *n.C) object { return object{"t": "C", "l": fmt.Sprint(e.GetL()), "s": e.ToString()} }
func item(list []interface{}) []object {
	r := []object{}
	for _, e := range list {
		switch x := e.(type) {
		case *n.A:
			r = append(r, a(x))
		case *n.B:
			r = append(r, b(x))
		case *n.C:
			r = append(r, c(x))
		default:
			r = append(r, object{"t": "?"})
		}
	}
	return r
}

// runs f, reports a panic
func try(r object, name string, f func() interface{}) {
	defer func() {
		if p := recover(); p != nil {
			r[name] = fmt.Sprint("panics: ", p)
		}
	}()
	r[name] = f()
}

func vectorB(r object, v *n.ArcVecVector, deep bool) {
	try(r, "size", func() interface{} { return v.GetSize() })
	try(r, "bytes", func() interface{} { return v.GetSizeInBytes() })
	try(r, "text", func() interface{} { return v.ToString() })
	try(r, "all", func() interface{} {
		l := []object{}
		for i := 0; i < v.GetSize(); i++ {
			l = append(l, b(v.Get(i)))
		}
		return l
	})
	if deep {
		try(r, "slices", func() interface{} {
			l := object{}
			for i := 0; i < v.GetSize(); i++ {
				for j := 0; j < v.GetSize(); j++ {
					for k := 1; k < 4; k++ {
						m := []object{}
						for _, e := range v.GetSlice(i, j, k) {
							m = append(m, b(e))
						}
						l[fmt.Sprint(i, " ", j, " ", k)] = m
					}
				}
			}
			return l
		})
	}
}

func run(j job) object {
	r := object{}
	var storage flatdata.ResourceStorage
	if j.Mode == "file" {
		storage = flatdata.NewFileResourceStorage(j.Path)
	} else {
		m := flatdata.InMemoryResourceStorage{Descriptors: map[string]flatdata.MemoryDescriptor{}, Schemas: map[string]string{}}
		for name, text := range j.Files {
			data, _ := base64.StdEncoding.DecodeString(text)
			if len(name) > 7 && name[len(name)-7:] == ".schema" {
				m.Schemas[name[:len(name)-7]] = string(data)
			} else {
				m.Descriptors[name] = &flatdata.TestMemoryDescriptor{Array: data}
			}
		}
		storage = &m
	}
	var arc *n.ArcArchive
	try(r, "error", func() interface{} {
		var err error
		arc, err = n.OpenArcArchive(storage)
		if err != nil {
			return err.Error()
		}
		return ""
	})
	if r["error"] != "" {
		return r
	}
	part := func(name string, optional, open bool, f func(object)) {
		p := object{"optional": optional, "open": open}
		r[name] = p
		if open {
			f(p)
		}
	}
	part("inst", arc.InstInstance.IsOptional, arc.InstInstance.IsOpen, func(p object) {
		v := arc.InstInstance
		try(p, "value", func() interface{} { return a(v.Get()) })
		try(p, "size", func() interface{} { return v.GetSize() })
		try(p, "bytes", func() interface{} { return v.GetSizeInBytes() })
		try(p, "text", func() interface{} { return v.ToString() })
	})
	part("oinst", arc.OinstInstance.IsOptional, arc.OinstInstance.IsOpen, func(p object) {
		try(p, "value", func() interface{} { return c(arc.OinstInstance.Get()) })
	})
	part("vec", arc.VecVector.IsOptional, arc.VecVector.IsOpen, func(p object) { vectorB(p, arc.VecVector, j.Deep) })
	part("ovec", arc.OvecVector.IsOptional, arc.OvecVector.IsOpen, func(p object) {
		v := arc.OvecVector
		try(p, "size", func() interface{} { return v.GetSize() })
		try(p, "all", func() interface{} {
			l := []object{}
			for i := 0; i < v.GetSize(); i++ {
				l = append(l, a(v.Get(i)))
			}
			return l
		})
	})
	part("mv", arc.MvMultivector.IsOptional, arc.MvMultivector.IsOpen, func(p object) {
		v := arc.MvMultivector
		try(p, "size", func() interface{} { return v.GetSize() })
		try(p, "bytes", func() interface{} { return v.GetSizeInBytes() })
		try(p, "text", func() interface{} { return v.ToString() })
		try(p, "all", func() interface{} {
			l := [][]object{}
			for i := 0; i < v.GetSize(); i++ {
				l = append(l, item(v.Get(i)))
			}
			return l
		})
	})
	part("omv", arc.OmvMultivector.IsOptional, arc.OmvMultivector.IsOpen, func(p object) {
		v := arc.OmvMultivector
		try(p, "size", func() interface{} { return v.GetSize() })
		try(p, "all", func() interface{} {
			l := [][]object{}
			for i := 0; i < v.GetSize(); i++ {
				l = append(l, item(v.Get(i)))
			}
			return l
		})
	})
	part("raw", arc.RawRawData.IsOptional, arc.RawRawData.IsOpen, func(p object) {
		v := arc.RawRawData
		try(p, "size", func() interface{} { return v.GetSize() })
		try(p, "bytes", func() interface{} { return v.GetSizeInBytes() })
		try(p, "text", func() interface{} { return v.ToString() })
		try(p, "value", func() interface{} { return base64.StdEncoding.EncodeToString(v.GetValue()) })
	})
	part("oraw", arc.OrawRawData.IsOptional, arc.OrawRawData.IsOpen, func(p object) {
		try(p, "value", func() interface{} { return base64.StdEncoding.EncodeToString(arc.OrawRawData.GetValue()) })
	})
	part("sub", arc.SubArchive.IsOptional, arc.SubArchive.IsOpen, func(p object) {
		part := func(name string, open bool, f func(object)) {
			q := object{"open": open}
			p[name] = q
			if open {
				f(q)
			}
		}
		part("v", arc.SubArchive.VVector.IsOpen, func(q object) {
			v := arc.SubArchive.VVector
			try(q, "all", func() interface{} {
				l := []object{}
				for i := 0; i < v.GetSize(); i++ {
					l = append(l, c(v.Get(i)))
				}
				return l
			})
		})
		part("o", arc.SubArchive.ORawData.IsOpen, func(q object) {
			try(q, "value", func() interface{} { return base64.StdEncoding.EncodeToString(arc.SubArchive.ORawData.GetValue()) })
		})
	})
	try(r, "bytes", func() interface{} { return arc.GetSizeInBytes() })
	try(r, "text", func() interface{} { return arc.ToString() })
	try(r, "close", func() interface{} {
		arc.Close()
		return fmt.Sprint(arc.InstInstance.IsOpen, arc.OinstInstance.IsOpen, arc.VecVector.IsOpen, arc.OvecVector.IsOpen, arc.MvMultivector.IsOpen,
			arc.OmvMultivector.IsOpen, arc.RawRawData.IsOpen, arc.OrawRawData.IsOpen)
	})
	return r
}

func main() {
	log.SetOutput(ioutil.Discard)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var j job
		if e := json.Unmarshal(line, &j); e != nil {
			panic(e)
		}
		text, _ := json.Marshal(run(j))
		out.Write(text)
		out.WriteString("\n")
	}
}
