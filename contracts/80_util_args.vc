// C16: flattening
// what a value contributes if none of the typed cases applies
fn rflat(v: any): Sq =
	let r0 = rvalOf(v) in
	let r = (if rkind(r0) == 22 then relem(r0) else r0) in
	if rkind(r) == 23 || rkind(r) == 17 then relemsn(r, rlen(r)) else snoc(qempty(), u(v))

group amem { "E.any", "E.bool", "E.float64", "E.float32", "E.int64", "E.int32", "E.int", "E.uint64", "E.uint32", "E.uint", "E.string", "C.[]bool", "C.[]float64", "C.[]float32", "C.[]int64", "C.[]int32", "C.[]int", "C.[]uint64", "C.[]uint32", "C.[]uint", "C.[]string" }

// what a value contributes: the elements of a slice, array or pointer to one, or itself
fn flatOf{amem}(v: any): Sq =
	if is(v, []any) then seq(as(v, []any))
	else if is(v, []bool) then boxed(as(v, []bool))
	else if is(v, []float64) then boxed(as(v, []float64))
	else if is(v, []float32) then boxed(as(v, []float32))
	else if is(v, []int64) then boxed(as(v, []int64))
	else if is(v, []int32) then boxed(as(v, []int32))
	else if is(v, []int) then boxed(as(v, []int))
	else if is(v, []uint64) then boxed(as(v, []uint64))
	else if is(v, []uint32) then boxed(as(v, []uint32))
	else if is(v, []uint) then boxed(as(v, []uint))
	else if is(v, []string) then boxed(as(v, []string))
	else if is(v, *[]bool) then (if as(v, *[]bool) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]bool))))
	else if is(v, *[]float64) then (if as(v, *[]float64) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]float64))))
	else if is(v, *[]float32) then (if as(v, *[]float32) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]float32))))
	else if is(v, *[]int64) then (if as(v, *[]int64) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]int64))))
	else if is(v, *[]int32) then (if as(v, *[]int32) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]int32))))
	else if is(v, *[]int) then (if as(v, *[]int) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]int))))
	else if is(v, *[]uint64) then (if as(v, *[]uint64) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]uint64))))
	else if is(v, *[]uint32) then (if as(v, *[]uint32) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]uint32))))
	else if is(v, *[]uint) then (if as(v, *[]uint) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]uint))))
	else if is(v, *[]string) then (if as(v, *[]string) == nil then snoc(qempty(), u(v)) else boxed(deref(as(v, *[]string))))
	else rflat(v)
// the values that the first n elements of s contribute
rec fn flatN{amem}(s: []any, n: int): Sq = if n <= 0 then qempty() else qcat(flatN(s, n - 1), flatOf(s[n - 1]))

func util.ArgsFlatted(valueOrSlices)(r) [C16]
	modifies [C16, C12] nothing
	ensures ["all values" C16] seq(r) == flatN(valueOrSlices, len(valueOrSlices))
	loop 1:
	invariant ["flattened so far"] seq(args) == flatN(valueOrSlices, k)
	invariant ["own array"] fresh(args)

func util.argsFrom(v)(r) [C16]
	modifies [C16, C12] nothing
	ensures ["elements" C16] seq(r) == flatOf(v)

func util.ptoa(slice)(r) [C16]
	modifies [C16, C12] nothing
	ensures ["nil is a value" C16] slice == nil ==> seq(r) == snoc(qempty(), u(iface(slice)))
	ensures ["elements" C16] slice != nil ==> seq(r) == boxed(deref(slice))

func util.convertArrayReflect(slice)(r) [C16]
	modifies [C16, C12] nothing
	ensures ["elements" C16] seq(r) == rflat(slice)
	loop 1:
	invariant ["copied"] seq(s) == relemsn(rv, i) && fresh(s) && 0 <= i && i <= n

func util.Ttoa(slice)(r) [C16]
	modifies [C16, C12] nothing
	ensures ["values" C16] seq(r) == boxed(slice)
	loop 1:
	invariant ["copied"] seq(b) == boxedn(slice, k)
