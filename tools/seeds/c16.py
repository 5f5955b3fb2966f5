SEEDS=[
dict(id="c16-pointer-chain", prop="C16", needs="a pointer to a pointer to a slice", breaks="a pointer to a pointer to a slice is flattened instead of being one value",
 edits=[("util/args.go","	if rv.Kind() == reflect.Pointer {\n","	for rv.Kind() == reflect.Pointer {\n")],
 demo='''s := &[]int8{1, 2}
	r := util.ArgsFlatted(&s)
	if len(r) != 1 {
		fail("%#v", r)
	}'''),
dict(id="c16-nil-named-slice", prop="C16", needs="a nil slice of a type without a case of its own", breaks="a nil slice of such a type is kept as one value",
 edits=[("util/args.go","		if rv.IsNil() {\n			return nil\n","		if rv.IsNil() {\n			return []any{slice}\n")],
 demo='''var s []int16
	r := util.ArgsFlatted(1, s, 2)
	if len(r) != 2 {
		fail("%#v", r)
	}'''),
dict(id="c16-nested-flatten", prop="C16", needs="a []any that holds a slice, like []any{[]byte(...)}", breaks="elements of a []any are flattened a second level",
 edits=[("util/args.go","	case []any:\n		return a\n","	case []any:\n		return ArgsFlatted(a...)\n")],
 demo='''r := util.ArgsFlatted([]any{1, []string{"a", "b"}})
	if len(r) != 2 {
		fail("%#v", r)
	}'''),
dict(id="c16-interface-elem", prop="C16", needs="a slice of interface values of a named type that hold slices", breaks="elements that are interfaces holding nil are dropped",
 edits=[("util/args.go","		s = append(s, rv.Index(i).Interface())","		e := rv.Index(i)\n		if e.Kind() == reflect.Interface && e.IsNil() {\n			continue\n		}\n		s = append(s, e.Interface())")],
 demo='''var list []fmt.Stringer
	list = append(list, nil, nil)
	r := util.ArgsFlatted(0, list)
	if len(r) != 3 {
		fail("%#v", r)
	}'''),
]
