// Fragments: the constructors and setters (C12: each changes its own fragment only).

func sqlf.F(raw)(r) [C19 C12]
	modifies [C12] nothing
	ensures ["the template" C19 C13] r != nil && fresh(r) && r.Raw == raw && len(r.Args) == 0 && len(r.Fragments) == 0 && r.Prefix == "" && r.Suffix == ""
func sqlf.Fa(raw, args)(r) [C12]
	modifies [C12] nothing
	ensures ["the args" C12] r != nil && fresh(r) && r.Raw == raw && r.Args == args && len(r.Fragments) == 0 && r.Prefix == "" && r.Suffix == ""
func sqlf.Ff(raw, fragments)(r) [C19 C12]
	modifies [C12] nothing
	ensures ["the fragments" C19 C13 C14] r != nil && fresh(r) && r.Raw == raw && len(r.Args) == 0 && r.Fragments == fragments && r.Prefix == "" && r.Suffix == ""
func sqlf.(*Fragment).WithPrefix(f, prefix)(r) [C12]
	requires f != nil
	modifies [C12] f.Prefix
	ensures ["set" C12 C13 C19] r == f && f.Prefix == prefix
func sqlf.(*Fragment).WithSuffix(f, suffix)(r) [C12]
	requires f != nil
	modifies [C12] f.Suffix
	ensures ["set" C12] r == f && f.Suffix == suffix
func sqlf.(*Fragment).WithArgs(f, args)(r) [C12]
	requires f != nil
	modifies [C12] f.Args
	ensures ["set" C12 C13] r == f && f.Args == args
func sqlf.(*Fragment).WithFragments(f, fragments)(r) [C12]
	requires f != nil
	modifies [C12] f.Fragments
	ensures ["set" C12 C13 C14] r == f && f.Fragments == fragments
func sqlf.(*Fragment).AppendArgs(f, args)(r) [C12]
	requires f != nil
	modifies [C12] f.Args
	ensures ["appended" C12] r == f && len(f.Args) == old(len(f.Args)) + len(args) && (len(args) > 0 ==> fresh(f.Args)) && (forall i: int :: {f.Args[i]} 0 <= i && i < len(f.Args) ==> f.Args[i] == (if i < old(len(f.Args)) then old(f.Args[i]) else args[i - old(len(f.Args))]))
func sqlf.(*Fragment).AppendFragments(f, fragments)(r) [C12]
	requires f != nil
	modifies [C12] f.Fragments
	ensures ["appended" C12 C13 C14] r == f && len(f.Fragments) == old(len(f.Fragments)) + len(fragments) && (len(fragments) > 0 ==> fresh(f.Fragments)) && (forall i: int :: {f.Fragments[i]} 0 <= i && i < len(f.Fragments) ==> f.Fragments[i] == (if i < old(len(f.Fragments)) then old(f.Fragments[i]) else fragments[i - old(len(f.Fragments))]))
	ensures ["in order" C13] seq(f.Fragments) == qcat(old(seq(f.Fragments)), seq(fragments))
