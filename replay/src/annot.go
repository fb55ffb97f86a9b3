package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/build"
)

func init() {
	oracles["C10"] = oracle{search: annotSearch, bounded: annotSearch}
}

var annotTags = []string{"db", "db0", "db1", "db2", "dbx", "db-1", "format", "verify", "bind", "lang", "ui", "xdb", "form", "tag"}
var annotKeys = []string{"name", "schema", "converter", "order", "key", "typ", "where", "offset", "limit", "insert", "inserts", "update", "group", "del", "get", "list", "map", "table", "set", "count", "force", "rm", "fake", "null", "reg", "min", "max", "format", "value", "zh_cn", "En", "zhCn", "fr", "x"}
var annotValues = []string{"", "true", "True", "false", "a", "x.y", "K.a", "K.b", "K.B", "K.A", "K.none", "S.m", "S.n", "S.N", "S.M", "S.", ".", "K", "no.a", "a b", "é", "K.a.b", "0", "{}", " a ", "x,y", "A B", "it's", "É", "a = ? AND b", "TRUE", "x.", " K.a"}

type aTag struct {
	name string
	kvs  []aKV
}

type aKV struct {
	key    string
	values []string
}

func annotSearch(r *rand.Rand) {
	file := &ast.File{Path: "x.hbuf"}
	enum := &ast.EnumType{Name: &ast.Ident{Name: "K"}}
	for _, n := range []string{"a", "B", "b", "c"} {
		enum.Items = append(enum.Items, &ast.EnumItem{Name: &ast.Ident{Name: n}, Id: &ast.BasicLit{Value: "1"}})
	}
	server := &ast.ServerType{Name: &ast.Ident{Name: "S"}}
	for _, n := range []string{"m", "N", "n"} {
		server.Methods = append(server.Methods, &ast.FuncType{Name: &ast.Ident{Name: n}})
	}
	look := func(f *ast.File, name string) *ast.Object {
		switch name {
		case "K":
			return &ast.Object{Name: name, Kind: ast.Enum, Decl: &ast.TypeSpec{Type: enum}}
		case "S":
			return &ast.Object{Name: name, Kind: ast.Server, Decl: &ast.TypeSpec{Type: server}}
		}
		return nil
	}
	for left() {
		var ts []aTag
		for i := r.Intn(4); i > 0; i-- {
			t := aTag{name: annotTags[r.Intn(len(annotTags))]}
			used := map[string]bool{}
			for j := r.Intn(5); j > 0; j-- {
				k := annotKeys[r.Intn(len(annotKeys))]
				if used[k] {
					continue
				}
				used[k] = true
				kv := aKV{key: k}
				for n := 1 + r.Intn(3); n > 0; n-- {
					kv.values = append(kv.values, annotValues[r.Intn(len(annotValues))])
				}
				t.kvs = append(t.kvs, kv)
			}
			ts = append(ts, t)
		}
		in := ""
		var tags []*ast.Tag
		for _, t := range ts {
			tag := &ast.Tag{Name: &ast.Ident{Name: t.name}}
			in += "[" + t.name + ":"
			for _, k := range t.kvs {
				kv := &ast.KeyValue{Name: &ast.Ident{Name: k.key}}
				in += " " + k.key + "="
				for i, v := range k.values {
					kv.Values = append(kv.Values, &ast.BasicLit{Value: "\"" + v + "\""})
					in += []string{"", ","}[min(i, 1)] + "\"" + v + "\""
				}
				in += ";"
				tag.KV = append(tag.KV, kv)
			}
			in += "]\n"
			tags = append(tags, tag)
		}
		in = "the annotations (enum K has a, B, b, c; server S has m, N, n)\n" + in
		try(in, func() { annotCase(in, ts, tags, file, enum, server, look) })
	}
}

func firstTag(ts []aTag, name string) (int, *aTag) {
	for i := range ts {
		if ts[i].name == name {
			return i, &ts[i]
		}
	}
	return -1, nil
}

// value is the first value of a key, or "".
func (t *aTag) value(key string) string {
	for _, k := range t.kvs {
		if k.key == key {
			return k.values[0]
		}
	}
	return ""
}

func (t *aTag) all(key string) []string {
	for _, k := range t.kvs {
		if k.key == key {
			return k.values
		}
	}
	return nil
}

func annotCase(in string, ts []aTag, tags []*ast.Tag, file *ast.File, enum *ast.EnumType, server *ast.ServerType, look func(*ast.File, string) *ast.Object) {
	eq := func(what string, got, want interface{}) {
		if !reflect.DeepEqual(got, want) {
			fail(in, fmt.Sprintf("%s is %v, want %v", what, got, want))
		}
	}
	for _, n := range annotTags {
		i, _ := firstTag(ts, n)
		got, ok := build.GetTag(tags, n)
		eq("GetTag "+n+" found", ok, i >= 0)
		if i >= 0 && got != tags[i] {
			fail(in, "GetTag "+n+" does not give the first one")
		}
	}
	for i, t := range ts {
		for _, k := range annotKeys {
			got, ok := build.GetKeyValue(tags[i].KV, k)
			eq("GetKeyValue "+k+" found", ok, t.all(k) != nil)
			if ok && (got.Name.Name != k || len(got.Values) != len(t.all(k))) {
				fail(in, "GetKeyValue "+k+" gives another key")
			}
		}
	}
	_, t := firstTag(ts, "format")
	f := build.GetFormat(tags)
	eq("format present", f != nil, t != nil)
	if t != nil {
		eq("format", *f, build.Format{Null: t.value("null") == "true", Reg: t.value("reg"), Min: t.value("min"), Max: t.value("max")})
	}
	_, t = firstTag(ts, "verify")
	v, err := build.GetVerify(tags, file, look)
	if t == nil {
		eq("verify", v == nil && err == nil, true)
	} else {
		var want []string
		bad := false
		for _, s := range t.all("format") {
			p := strings.Split(s, ".")
			if len(p) < 2 || p[0] != "K" || !strings.Contains(" a B b c ", " "+p[1]+" ") {
				bad = true
				break
			}
			want = append(want, p[1])
		}
		eq("verify refused", err != nil, bad)
		if err == nil {
			var got []string
			for _, e := range v.GetFormat() {
				if e.Enum != enum {
					fail(in, "verify names another enum")
				}
				got = append(got, e.Item.Name.Name)
			}
			eq("verify items", got, want)
		}
	}
	_, t = firstTag(ts, "bind")
	b, err := build.GetBinding(tags, file, look)
	if t == nil || t.all("value") == nil {
		eq("bind", b == nil && err == nil, true)
	} else {
		p := strings.Split(t.value("value"), ".")
		ok := len(p) >= 2 && p[0] == "S" && (p[1] == "m" || p[1] == "n" || p[1] == "N")
		eq("bind refused", err != nil, !ok)
		if err == nil && (b.Server != server || b.Method.Name.Name != p[1]) {
			fail(in, "bind gives another method")
		}
	}
	_, t = firstTag(ts, "lang")
	l := build.NewLanguage("N")
	l.Add("f", nil)
	_, en := l.Key["en"]
	eq("en among the languages when no field has a lang", en, true)
	l.Add("g", tags)
	want := map[string]string{}
	keys := map[string]bool{"en": true}
	if t != nil {
		for _, k := range t.kvs {
			want[lowFirst(wantHump(k.key))] = k.values[0]
			keys[lowFirst(wantHump(k.key))] = true
		}
	}
	if len(want)+len(l.Lang["g"]) > 0 {
		eq("lang texts", map[string]string(l.Lang["g"]), want)
	}
	eq("lang fields", len(l.Lang), 2)
	l.Add("h", []*ast.Tag{{Name: &ast.Ident{Name: "lang"}, KV: []*ast.KeyValue{{Name: &ast.Ident{Name: "it"}, Values: []*ast.BasicLit{{Value: "\"t\""}}}}}})
	keys["it"] = true
	if t != nil {
		eq("lang texts after another field", len(l.Lang["g"]), len(want))
	}
	gotKeys := map[string]bool{}
	for k := range l.Key {
		gotKeys[k] = true
	}
	eq("languages", gotKeys, keys)

	annotDB(in, ts, tags, eq)
}

func annotDB(in string, ts []aTag, tags []*ast.Tag, eq func(string, interface{}, interface{})) {
	type rec struct {
		idx int
		t   *aTag
	}
	var want []rec
	for i := range ts {
		switch n := ts[i].name; n {
		case "db", "db0":
			want = append(want, rec{0, &ts[i]})
		case "db1", "db2", "db-1":
			want = append(want, rec{map[string]int{"db1": 1, "db2": 2, "db-1": -1}[n], &ts[i]})
		}
	}
	got := build.GetDB("userName", tags)
	eq("number of db records", len(got), len(want))
	used := map[*aTag]bool{}
	for _, g := range got {
		if g == nil {
			fail(in, "a db record is nil")
		}
		// the highest number first; among equal ones any order
		best := -1
		for i, w := range want {
			if !used[w.t] && (best < 0 || w.idx > want[best].idx) {
				best = i
			}
		}
		ok := false
		for _, w := range want {
			if !used[w.t] && w.idx == want[best].idx && dbSame(g, w.t) {
				used[w.t] = true
				ok = true
				break
			}
		}
		if !ok {
			fail(in, fmt.Sprintf("the db record %+v is not that of an annotation of number %d", *g, want[best].idx))
		}
	}
}

func dbSame(g *build.DB, t *aTag) bool {
	low := func(k string) bool { return strings.ToLower(t.value(k)) == "true" }
	name := t.value("name")
	if name == "" {
		name = "user_name"
	}
	fake := true
	if t.all("fake") != nil {
		fake = low("fake")
	}
	where := t.all("where")
	return g.Name == name && g.Schema == t.value("schema") && g.Converter == t.value("converter") && g.Order == t.value("order") &&
		g.Key == (t.value("key") == "true") && g.Offset == t.value("offset") && g.Limit == t.value("limit") &&
		g.Insert == t.value("insert") && g.Inserts == t.value("inserts") && g.Update == t.value("update") && g.Group == t.value("group") &&
		g.Del == low("del") && g.Get == t.value("get") && g.List == t.value("list") && g.Map == strings.ToLower(t.value("map")) &&
		g.Table == t.value("table") && g.Set == t.value("set") && g.Count == low("count") && g.Force == low("force") && g.Remove == low("rm") &&
		g.Fake == fake && reflect.DeepEqual(append([]string{}, g.Where...), append([]string{}, where...))
}
