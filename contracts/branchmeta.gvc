package ripsrc/branchmeta
theory graph.rs listing.rs refs.rs
heap os/exec.Cmd bytes.Buffer

func execCommand
props C21
ensures [C21 lists] command == "git" && is_list_args(args) ==> (result1 != 0) == list_fails(dir, args[3])
ensures [C21 listed] command == "git" && is_list_args(args) && result1 == 0 ==> is_ref_list(result0, git_refs(dir, args[3]), args[3])
ensures [C21 heads] command == "git" && is_head_args(args) ==> (result1 != 0) == head_fails(dir)
ensures [C21 head] command == "git" && is_head_args(args) && result1 == 0 ==> str_trimspace(result0) == git_head(dir)
hint exit: let ca = seq![command] + args; assert(ca.skip(1) =~= args);

func getDefaultBranch
props C21
ensures [C21 default] result1 == 0 ==> result0 == default_name(opts.RepoDir)
ensures [C21 no default] result1 != 0 ==> head_fails(opts.RepoDir) || default_name(opts.RepoDir) == str_empty()

func Get
props C21
let P = ref_prefix(opts.UseOrigin)
let RS = git_refs(opts.RepoDir, P)
let DN = default_name(opts.RepoDir)
ensures [C21 branches] result1 == 0 ==> seq_perm(result0, wanted(RS, RS.len() as int, P, DN, opts.IncludeDefault))
ensures [C21 order] result1 == 0 ==> forall|i: int, j: int| 0 <= i < j < result0.len() ==> !str_lt((#[trigger] result0[j]).Name, (#[trigger] result0[i]).Name)
ensures [C21 errors] result1 != 0 ==> head_fails(opts.RepoDir) || DN == str_empty() || list_fails(opts.RepoDir, P)
loop 1
invariant res == wanted(RS, if $k < RS.len() { $k } else { RS.len() as int }, P, DN, opts.IncludeDefault)
hint loop 1: if $k < RS.len() { let l = lines[$k]; lemma_ref_line(RS[$k], P); }
