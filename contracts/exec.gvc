package ripsrc/gitexec
heap os/exec.Cmd

extern os/exec
func Command
trusted
props C18 C07 C08 C21
modifies heap_Cmd
ensures result != 0 && heap_Cmd.dom().contains(result) && heap_Cmd[result].Args == seq![name] + arg && heap_Cmd[result].Dir == str_empty() && heap_Cmd[result].Stdout == 0
ensures [C21] heap_Cmd.remove(result) =~= old(heap_Cmd).remove(result)
assume exec.Command prepares the command it is given

func (*Cmd).Output
trusted
props C18 C07 C08 C21
modifies heap_Cmd
requires c != 0 && heap_Cmd.dom().contains(c)
let A = old(heap_Cmd)[c].Args
let D = old(heap_Cmd)[c].Dir
ensures [C18,C07,C08] result1 == 0 ==> forall|h: Str, f: Str| A =~= #[trigger] blame_args(h, f) || A =~= blame_args2(h, f) ==> is_blame(result0, git_blame(D, h, f))
ensures [C21] is_list_args(A.skip(1)) && A[0] == "git" ==> (result1 != 0) == list_fails(D, A[4])
ensures [C21] is_head_args(A.skip(1)) && A[0] == "git" ==> (result1 != 0) == head_fails(D)
ensures [C21] is_list_args(A.skip(1)) && A[0] == "git" && result1 == 0 ==> is_ref_list(result0, git_refs(D, A[4]), A[4])
ensures [C21] is_head_args(A.skip(1)) && A[0] == "git" && result1 == 0 ==> str_trimspace(result0) == git_head(D)
assume git blame --porcelain prints the listing of that file at that commit, in its documented format
