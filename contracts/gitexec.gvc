package ripsrc/gitexec
theory meta.rs

func ExecPiped
trusted
props C17
ensures [C17] result1 == 0 ==> forall|opts: commitmeta_Opts, tmp: Str| args == #[trigger] log_args(opts, tmp) ==> result0 == git_log(gitCommand, repoDir, opts)
assume the output of git is that of the command with these arguments in the repository at that time
