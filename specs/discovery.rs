// the file system, as it is while it is walked
pub uninterp spec fn fs_err(p: Str) -> int;
pub uninterp spec fn fs_info(p: Str) -> int;
pub uninterp spec fn fi_isdir(i: int) -> bool;
pub uninterp spec fn fi_name(i: int) -> Str;
pub uninterp spec fn err_notexist(e: int) -> bool;
pub uninterp spec fn abs_err(p: Str) -> int;
pub uninterp spec fn path_abs(p: Str) -> Str;
pub uninterp spec fn dir_err(p: Str) -> int;
pub uninterp spec fn dir_list(p: Str) -> Seq<int>;

pub open spec fn sub(dir: Str, name: Str) -> Str { path_join(seq![dir, name]) }
// there is a directory of this name in dir
pub open spec fn has_dir(dir: Str, name: Str) -> bool { fs_err(sub(dir, name)) == 0 && fi_isdir(fs_info(sub(dir, name))) }
// it is not known whether there is
pub open spec fn unclear(dir: Str, name: Str) -> bool { fs_err(sub(dir, name)) != 0 && !err_notexist(fs_err(sub(dir, name))) }
pub open spec fn bare_name(dir: Str) -> bool { path_ext(path_abs(dir)) == @".git" }

// what a walk does: the calls made after it, and whether it failed, with which error if the action's (-1: some other error)
pub ghost struct Walk { pub calls: Seq<Str>, pub ok: bool, pub err: int }
pub type Walks = spec_fn(Str, int, Seq<Str>) -> Walk;
pub open spec fn at(w: Walks, dir: Str, depth: int, calls: Seq<Str>) -> Walk { w(dir, depth, calls) }
pub open spec fn call(calls: Seq<Str>, dir: Str) -> Walk {
    let c = calls.push(dir);
    Walk { calls: c, ok: callback_result(c) == 0, err: callback_result(c) }
}
pub open spec fn fails(calls: Seq<Str>) -> Walk { Walk { calls, ok: false, err: -1 } }
// the subdirectories from number i on, one after the other, up to the first error
pub open spec fn walk_subs(w: Walks, dir: Str, l: Seq<int>, i: int, depth: int, calls: Seq<Str>) -> Walk decreases l.len() - i {
    if i < 0 || i >= l.len() { Walk { calls, ok: true, err: 0 } }
    else if !fi_isdir(l[i]) { walk_subs(w, dir, l, i + 1, depth, calls) }
    else { let r = at(w, sub(dir, fi_name(l[i])), depth - 1, calls); if r.ok { walk_subs(w, dir, l, i + 1, depth, r.calls) } else { r } }
}
pub open spec fn below(w: Walks, dir: Str, depth: int, calls: Seq<Str>) -> Walk {
    if depth == 0 { Walk { calls, ok: true, err: 0 } }
    else if dir_err(dir) != 0 { fails(calls) }
    else { walk_subs(w, dir, dir_list(dir), 0, depth, calls) }
}
pub open spec fn walk_step(w: Walks, dir: Str, depth: int, calls: Seq<Str>) -> Walk {
    if fs_err(dir) != 0 || !fi_isdir(fs_info(dir)) || unclear(dir, @".git") { fails(calls) }
    else if has_dir(dir, @".git") { call(calls, dir) }
    else if abs_err(dir) != 0 || (bare_name(dir) && unclear(dir, @"objects")) { fails(calls) }
    else if bare_name(dir) && has_dir(dir, @"objects") {
        let r = call(calls, dir);
        if r.ok { below(w, dir, depth, r.calls) } else { r }
    } else { below(w, dir, depth, calls) }
}
// w is what walking any directory does
pub open spec fn is_walk(w: Walks) -> bool { forall|d: Str, n: int, c: Seq<Str>| #[trigger] at(w, d, n, c) == walk_step(w, d, n, c) }
