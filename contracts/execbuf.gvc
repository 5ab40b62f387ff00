package ripsrc/gitexec
heap os/exec.Cmd bytes.Buffer

extern os/exec
func (*Cmd).Run
trusted
props C21
modifies heap_Cmd heap_Buffer
requires c != 0 && heap_Cmd.dom().contains(c)
let C = old(heap_Cmd)[c]
let W = old(heap_Cmd)[c].Stdout
let OLD = bb_at(old(heap_Buffer), W)
let NEW = bb_at(heap_Buffer, W)
ensures is_list_args(C.Args.skip(1)) && C.Args[0] == "git" ==> (result != 0) == list_fails(C.Dir, C.Args[4])
ensures is_head_args(C.Args.skip(1)) && C.Args[0] == "git" ==> (result != 0) == head_fails(C.Dir)
ensures is_list_args(C.Args.skip(1)) && C.Args[0] == "git" && result == 0 && W != 0 && OLD.len() == 0 ==> is_ref_list(NEW, git_refs(C.Dir, C.Args[4]), C.Args[4])
ensures is_head_args(C.Args.skip(1)) && C.Args[0] == "git" && result == 0 && W != 0 && OLD.len() == 0 ==> str_trimspace(NEW) == git_head(C.Dir)
assume git for-each-ref prints a line for each ref under the prefix, with object name, full name and date, the first two without spaces; git symbolic-ref prints what HEAD stands for

extern bytes
func NewBuffer
trusted
props C21
modifies heap_Buffer
ensures result != 0 && heap_Buffer.dom().contains(result) && heap_Buffer[result] == buf && heap_Buffer.remove(result) =~= old(heap_Buffer).remove(result)

func (*Buffer).Bytes
trusted
props C21
requires b != 0
ensures result == bb_at(heap_Buffer, b)
assume a bytes.Buffer holds what was written to it
