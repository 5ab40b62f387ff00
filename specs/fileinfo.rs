// what the language detector and the license detector say
pub uninterp spec fn enry_config(p: Str) -> bool;
pub uninterp spec fn enry_dot(p: Str) -> bool;
pub uninterp spec fn enry_vendor(p: Str) -> bool;
pub uninterp spec fn enry_language(p: Str, c: Str) -> Str;
pub uninterp spec fn detected(p: Str, c: Str) -> bool;
pub open spec fn vendored(p: Str) -> bool { enry_vendor(p) && !starts_with(p, @"src/") }
// why a path alone is left out
pub open spec fn path_skip(p: Str, ignored: bool) -> Str {
    if enry_config(p) { @"File was a config file" }
    else if enry_dot(p) { @"File was a dot file" }
    else if ignored { @"File was on an exclusion list" }
    else if vendored(p) { @"File was a vendored file" }
    else { str_empty() }
}
pub open spec fn max_size() -> int { 1000000 }
pub open spec fn max_lines() -> int { 40000 }
pub open spec fn max_width() -> int { 1096 }
// the first line that is too long; the number of lines if there is none
pub open spec fn first_long(ls: Seq<Str>, i: int) -> int decreases ls.len() - i {
    if i < 0 || i >= ls.len() { ls.len() as int } else if ls[i].len() > max_width() { i } else { first_long(ls, i + 1) }
}
pub open spec fn size_text(n: int) -> Str { @"File size was " + str_itoa(n / 1000) + @"K which exceeds limit of " + str_itoa(1000) + @"K" }
pub open spec fn width_text(n: int) -> Str { @"File has a line width of " + str_itoa(n) + @" which is greater than max of " + str_itoa(max_width()) }
// why the file is left out; empty if it is not
pub open spec fn skip_of(a: fileinfo_InfoArgs, licname: bool, ignored: bool) -> Str {
    if a.Content.len() > max_size() { size_text(a.Content.len() as int) }
    else if licname && detected(a.FilePath, a.Content) { @"File is a license file" }
    else if path_skip(a.FilePath, ignored) != str_empty() { path_skip(a.FilePath, ignored) }
    else if a.Lines.len() > max_lines() { @"File has more than " + str_itoa(max_lines()) + @" lines" }
    else if first_long(a.Lines, 0) < a.Lines.len() { width_text(a.Lines[first_long(a.Lines, 0)].len() as int) }
    else if enry_language(a.FilePath, a.Content) == str_empty() { @"Language was unknown" }
    else { str_empty() }
}
// remembered answers are the right ones
pub open spec fn cache_ok(m: Map<Str, Str>, ignore: Ptr<int>) -> bool { forall|p: Str| #[trigger] m.dom().contains(p) ==> m[p] == path_skip(p, re_match(ignore, p)) }
